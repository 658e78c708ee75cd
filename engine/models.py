"""Models of the foreign (std, url, log) functions the crate calls, keyed by method and shape."""
from terms import *
from prog import *

# documented panics that concern allocation failure / capacity overflow only
ALLOC_ONLY = {'push', 'with_capacity', 'reserve', 'push_str', 'extend', 'collect', 'insert_str',
              'enumerate', 'to_vec', 'append', 'extend_from_slice', 'to_owned', 'to_string', 'clone', 'peekable',
              'count', 'loc', 'from_usize', 'resize', 'from', 'next', 'concat', 'join', 'repeat', 'flatten',
              'new_display', 'to_lowercase', 'to_uppercase', 'cloned', 'last', 'position'}


def method(d):
    # last path segment, ignoring generic arguments
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        c = d[i]
        if c == '>':
            depth += 1
        elif c == '<':
            depth -= 1
        elif c == ':' and depth == 0:
            r = d[i + 1:]
            break
    else:
        r = d
    return r.split('<')[0]


def cat(*xs):
    out = []
    for x in xs:
        ys = x.a if x.op == 'cat' else (x,)
        for y in ys:
            if y.op == 'str' and y.a[0] == '':
                continue
            if y.op == 'str' and out and out[-1].op == 'str':
                out[-1] = S(out[-1].a[0] + y.a[0])
            else:
                out.append(y)
    if not out:
        return S('')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


MEM = {'std::mem::take': 'x_memtake', 'core::mem::take': 'x_memtake', 'std::mem::replace': 'x_memreplace',
       'core::mem::replace': 'x_memreplace', 'std::mem::swap': 'x_memswap', 'core::mem::swap': 'x_memswap'}


class Models:
    VMAX = 64

    def __init__(self, it):
        self.it = it
        self.p = it.p
        self.cache = {}

    # ------------------------------------------------------------ dispatch
    def find(self, inst):
        k = inst['i']
        if k in self.cache:
            return self.cache[k]
        m = self._find(inst)
        self.cache[k] = m
        return m

    def _find(self, inst):
        d, n = inst['d'], inst['n']
        me = method(d)
        if inst['local']:
            if me == 'clone' and ' as std::clone::Clone>' in d:
                return self.m_clone
            if me == 'fmt' and ' as std::fmt::Display>' in d and inst['body']:
                return self.m_local_display
            return None
        if inst['body'] and me not in ('clone',):
            return None
        if inst['kind'] == 'Intrinsic':
            return None
        if d in MEM:
            return getattr(self, MEM[d])
        f = getattr(self, 'f_' + me, None)
        if f is not None:
            return f
        if me in IDENT:
            return self.m_ident
        return None

    # ------------------------------------------------------------ mem
    def x_memreplace(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        old = self.getcell(st, cp)
        self.setcell(st, F, cp, args[1])
        return [(st, old)]

    def x_memtake(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        z = self.dflt(self.dty(F, t, inst))
        if cp is None or z is None:
            return self.default(F, bb, st, inst, args, t, sp)
        old = self.getcell(st, cp)
        self.setcell(st, F, cp, z)
        return [(st, old)]

    def x_memswap(self, F, bb, st, inst, args, t, sp):
        a, b = self.cell_of(st, args[0]), self.cell_of(st, args[1])
        if a is None or b is None:
            return self.default(F, bb, st, inst, args, t, sp)
        x, y = self.getcell(st, a), self.getcell(st, b)
        self.setcell(st, F, a, y)
        self.setcell(st, F, b, x)
        return [(st, UNIT)]

    def dflt(self, ty):
        if ty is None:
            return None
        k = self.p.types[ty]
        if k['k'] in ('int', 'uint', 'char'):
            return I(0)
        if k['k'] == 'bool':
            return FALSE
        if k['k'] == 'float':
            return mk('flt', 0.0)
        if k['k'] == 'tuple':
            xs = [self.dflt(x) for x in k['ts']]
            return None if None in xs else mk('tup', *xs)
        if k['k'] == 'ref' and self.p.types[k['e']]['k'] == 'str':
            return self.it.mkbox(S(''))
        if k['k'] == 'adt' and not k.get('local'):
            n = short(k['n'])
            if n == 'String':
                return S('')
            if n in ('Vec', 'VecDeque'):
                return mk('arr')
            if n in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet'):
                return mk('arr') if getattr(self, 'maps', False) else mk('map0')
            if n == 'Option':
                return self.enum_of(ty, 'None')
        if k['k'] == 'adt' and k.get('local'):
            return None
        return None

    # ------------------------------------------------------------ helpers
    def peel(self, st, t, ty=None):
        it = self.it
        while True:
            if t.op == 'box':
                t = t.a[0]
            elif t.op == 'ref':
                t = it.read_path(st, t.a[0], t.a[1])
            elif t.op == 'hbox':
                t = it.read_cell(st, t.a[0])
            elif t.op == 'alt':
                s = it.simp(st, t)
                if s is not t:
                    t = s
                    continue
                if any(x.op in ('box', 'ref', 'hbox') or self.isref(x) for _, x in t.a[0]):
                    arms = tuple((c, self.peel(st, x)) for c, x in t.a[0])
                    if all(x is arms[0][1] for _, x in arms):
                        return arms[0][1]
                    return mk('alt', arms)
                return t
            elif self.isref(t):
                t = mk('deref', t, ty=self.p.types[t.ty]['e'])
            else:
                return t

    def isref(self, t):
        return t.ty is not None and self.p.types[t.ty]['k'] == 'ref'

    def isstr_ty(self, ty):
        k = self.p.types[ty]
        return k['k'] == 'str' or k['k'] == 'adt' and short(k['n']) == 'String'

    def deep_ty(self, ty):
        return self.p.deref_ty(ty)

    def aty(self, F, t, inst, i):
        if t is not None:
            return self.it.op_ty(F, t[2][i])
        ps = inst.get('params')
        return ps[i] if ps and i < len(ps) else None

    def dty(self, F, t, inst):
        if t is not None:
            return self.it.place_ty(F, t[3])
        return inst.get('ret')

    def cell_of(self, st, r):
        """(cell, proj) of a mutable reference value, following references to references"""
        it = self.it
        while r.op == 'box':
            r = r.a[0]
        for _ in range(6):
            if r.op != 'ref':
                return None
            v = it.read_path(st, r.a[0], r.a[1])
            if v.op == 'ref':
                r = v
                continue
            return r.a[0], r.a[1]
        return None

    def setcell(self, st, F, cp, v):
        self.it.write_path(st, F, cp[0], cp[1], v)

    def getcell(self, st, cp):
        return self.it.simp(st, self.it.read_path(st, cp[0], cp[1]))

    def split_bool(self, st, c):
        """states where c holds / does not hold"""
        out = []
        for v in (True, False):
            s = st.copy()
            try:
                self.it.assume(s, c, v)
                out.append((s, v))
            except Dead:
                pass
        return out

    def enum_of(self, dty, vname, *fields):
        for i, v in enumerate(self.p.types[dty]['v']):
            if v['n'] == vname:
                return self.it.adt(dty, i, *fields)
        raise KeyError(vname)

    def payload_ty(self, dty, vname):
        for v in self.p.types[dty]['v']:
            if v['n'] == vname:
                return v['f'][0][1] if v['f'] else None

    # ------------------------------------------------------------ defaults
    def opaque_result(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        vals = []
        wrote = False
        for a in args:
            cp = self.cell_of(st, a) if a.op == 'ref' else None
            if cp is not None:
                vals.append(self.getcell(st, cp))
            else:
                vals.append(a)
        nm = inst['n']
        k = self.p.types.get(dty)
        if k is not None and k['k'] == 'tuple' and not k['ts']:
            r = UNIT
        elif k is not None and k['k'] == 'never':
            r = UNIT
        else:
            r = mk('call', nm, *vals, ty=dty)
        for i, a in enumerate(args):
            cp = self.cell_of(st, a) if a.op == 'ref' else None
            if cp is not None:
                old = self.getcell(st, cp)
                new = mk('after', nm, i, *vals, ty=self.it.ty_of(old), marks=self.it.curmarks())
                self.setcell(st, F, cp, new)
        return [(st, r)]

    def default(self, F, bb, st, inst, args, t, sp):
        it = self.it
        me = method(inst['d'])
        it.unknown[inst['d']] = it.unknown.get(inst['d'], 0) + 1
        it.emit(st, F, 'fcall', (inst['d'], inst['n'], tuple(args)), bb, sp)
        if t is not None and t[4] is None:
            it.obligation(st, F, bb, 'panic:' + me, False, inst['n'], sp)
            return []
        if (inst['track'] or inst['docpanic']) and me not in ALLOC_ONLY:
            it.obligation(st, F, bb, 'foreign:' + me, False, inst['n'], sp)
        return self.opaque_result(F, bb, st, inst, args, t, sp)

    # ------------------------------------------------------------ identity-like
    def m_ident(self, F, bb, st, inst, args, t, sp):
        """conversions that keep the value: shapes are repaired by the destination type"""
        return [(st, self.conv(st, F, args[0], t, inst))]

    def conv(self, st, F, v, t, inst):
        dty = self.dty(F, t, inst)
        if dty is None:
            return v
        k = self.p.types[dty]
        if k['k'] == 'ref':
            n = 0
            e = dty
            if k.get('mut'):
                return v
            x = self.peel(st, v)
            depth = 0
            while self.p.types[e]['k'] == 'ref':
                depth += 1
                e = self.p.types[e]['e']
            for _ in range(depth):
                x = self.it.mkbox(x)
            return x
        return self.peel(st, v)

    def m_clone(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        v = args[0]
        if v.op == 'box':
            v = v.a[0]
        elif v.op == 'ref':
            v = self.it.read_path(st, v.a[0], v.a[1])
        else:
            v = self.it.deref(st, v, dty)
        return [(st, v)]

    f_clone = m_clone
    f_cloned = None

    def f_must_use(self, F, bb, st, inst, args, t, sp):
        return [(st, args[0])]

    def f_not(self, F, bb, st, inst, args, t, sp):
        return [(st, self.it.b_not(self.peel(st, args[0])))]

    # ------------------------------------------------------------ comparisons
    def cmp_terms(self, st, a, b, aty):
        it = self.it
        a, b = self.peel(st, a), self.peel(st, b)
        k = self.p.types[aty]['k'] if aty is not None else None
        if aty is not None and self.isstr_ty(aty) or a.op == 'str' or b.op == 'str':
            return it.b_streq(a, b)
        if k in ('int', 'uint', 'char', 'bool'):
            return it.b_eq(a, b)
        if a is b and k != 'float':
            return TRUE
        if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
        if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and len(a.a) == len(b.a) and not self.p.types[a.a[0]].get('local'):
            rs = [self.cmp_terms(st, x, y, f[1]) for x, y, f in zip(a.a[2:], b.a[2:], self.p.types[a.a[0]]['v'][a.a[1]]['f'])]
            if any(r is FALSE for r in rs):
                return FALSE
            rs = [r for r in rs if r is not TRUE]
            if not rs:
                return TRUE
            if len(rs) == 1:
                return rs[0]
        if b.op == 'arr' and not b.a or a.op == 'arr' and not a.a:
            # list compared with the empty list
            return it.b_eq(it.len_(a), it.len_(b))
        if b.id < a.id:
            a, b = b, a
        return mk('bool', 'feq' if k == 'float' else 'eqv', a, b)

    def f_eq(self, F, bb, st, inst, args, t, sp):
        aty = self.deep_ty(self.aty(F, t, inst, 0))
        # comparing references to values of a local type: use its own eq
        r = self.local_eq(F, bb, st, inst, args, t, sp, aty)
        if r is not None:
            return r
        return [(st, self.cmp_terms(st, args[0], args[1], aty))]

    def local_eq(self, F, bb, st, inst, args, t, sp, aty):
        if aty is None:
            return None
        k = self.p.types[aty]
        if k['k'] == 'adt' and k.get('local'):
            for x in self.p.insts:
                if x['local'] and x['body'] and x['n'].endswith('::eq') and ' as std::cmp::PartialEq' in x['n'] \
                        and self.p.deref_ty(x['body']['locals'][1]) == aty:
                    a, b = self.peel(st, args[0]), self.peel(st, args[1])
                    return self.it.run(x, [self.it.mkbox(a), self.it.mkbox(b)], st, F.path + ((F.inst['i'], bb, x['i']),))
        return None

    def f_ne(self, F, bb, st, inst, args, t, sp):
        return [(s, self.it.b_not(v)) for s, v in self.f_eq(F, bb, st, inst, args, t, sp)]

    def order(self, F, st, args, t, op, inst=None):
        aty = self.deep_ty(self.aty(F, t, inst, 0))
        a, b = self.peel(st, args[0]), self.peel(st, args[1])
        k = self.p.types[aty]['k']
        it = self.it
        if k in ('int', 'uint', 'char'):
            return {'lt': it.b_lt(a, b), 'gt': it.b_lt(b, a), 'le': it.b_not(it.b_lt(b, a)),
                    'ge': it.b_not(it.b_lt(a, b))}[op]
        if op in ('gt', 'ge'):
            a, b = b, a
        return mk('bool', ('f' if k == 'float' else 'o') + ('lt' if op in ('lt', 'gt') else 'le'), a, b)

    def f_lt(self, F, bb, st, inst, args, t, sp):
        return [(st, self.order(F, st, args, t, 'lt', inst))]

    def f_le(self, F, bb, st, inst, args, t, sp):
        return [(st, self.order(F, st, args, t, 'le', inst))]

    def f_gt(self, F, bb, st, inst, args, t, sp):
        return [(st, self.order(F, st, args, t, 'gt', inst))]

    def f_ge(self, F, bb, st, inst, args, t, sp):
        return [(st, self.order(F, st, args, t, 'ge', inst))]

    def f_is_nan(self, F, bb, st, inst, args, t, sp):
        return [(st, mk('bool', 'is_nan', args[0]))]

    def f_is_finite(self, F, bb, st, inst, args, t, sp):
        return [(st, mk('bool', 'is_finite', args[0]))]

    def f_is_infinite(self, F, bb, st, inst, args, t, sp):
        return [(st, mk('bool', 'is_infinite', args[0]))]

    def f_eq_ignore_ascii_case(self, F, bb, st, inst, args, t, sp):
        a, b = self.peel(st, args[0]), self.peel(st, args[1])
        return [(st, self.it.b_streq(self.casefold('lower', a), self.casefold('lower', b)))]

    # ------------------------------------------------------------ strings
    def casefold(self, op, s):
        if s.op == 'str':
            return S(s.a[0].lower() if op == 'lower' else s.a[0].upper())
        if s.op == op:
            return s
        return mk(op, s)

    def mapalt(self, st, s, f):
        s = self.it.simp(st, s)
        if s.op == 'alt':
            arms = tuple((c, f(x)) for c, x in s.a[0])
            if all(x is arms[0][1] for _, x in arms):
                return arms[0][1]
            return mk('alt', arms)
        return f(s)

    def f_to_lowercase(self, F, bb, st, inst, args, t, sp):
        return [(st, self.mapalt(st, self.peel(st, args[0]), lambda x: self.casefold('lower', x)))]

    f_to_ascii_lowercase = f_to_lowercase

    def f_to_uppercase(self, F, bb, st, inst, args, t, sp):
        return [(st, self.mapalt(st, self.peel(st, args[0]), lambda x: self.casefold('upper', x)))]

    f_to_ascii_uppercase = f_to_uppercase

    def f_trim(self, F, bb, st, inst, args, t, sp):
        def g(x):
            if x.op == 'str':
                return S(x.a[0].strip())
            if x.op in ('trim',):
                return x
            if x.op == 'item' and x.a[0].op == 'splitws':
                return x
            return mk('trim', x)
        return [(st, self.it.mkbox(self.mapalt(st, self.peel(st, args[0]), g)))]

    def strfn(op):
        def f(self, F, bb, st, inst, args, t, sp):
            s = self.peel(st, args[0])
            rest = [self.pat(st, a) for a in args[1:]]
            return [(st, self.it.mkbox(mk(op, s, *rest)))]
        return f

    f_trim_start = strfn('trim_start')
    f_trim_end = strfn('trim_end')
    f_trim_matches = strfn('trim_matches')
    f_trim_start_matches = strfn('trim_start_matches')
    f_trim_end_matches = strfn('trim_end_matches')

    def pat(self, st, a):
        a = self.peel(st, a)
        if a.op == 'int':
            return S(chr(a.a[0]))
        if a.op == 'arr' and all(x.op == 'int' for x in a.a):
            return mk('charset', tuple(sorted(chr(x.a[0]) for x in a.a)))
        return a

    def f_len(self, F, bb, st, inst, args, t, sp):
        if len(args) != 1:
            return None
        return [(st, self.it.len_(self.it.simp(st, self.peel(st, args[0]))))]

    def f_is_empty(self, F, bb, st, inst, args, t, sp):
        x = self.it.simp(st, self.peel(st, args[0]))
        aty = self.deep_ty(self.aty(F, t, inst, 0))
        if aty is not None and self.isstr_ty(aty):
            return [(st, self.it.b_streq(x, S('')))]
        return [(st, self.it.b_eq(self.it.len_(x), I(0)))]

    def f_contains(self, F, bb, st, inst, args, t, sp):
        aty = self.deep_ty(self.aty(F, t, inst, 0))
        x = self.peel(st, args[0])
        if aty is not None and self.p.types[aty]['k'] == 'str' or aty is not None and self.isstr_ty(aty):
            pt = self.pat(st, args[1])
            if x.op == 'str' and pt.op == 'str':
                return [(st, I(pt.a[0] in x.a[0]))]
            return [(st, mk('contains', x, pt))]
        return [(st, mk('bool', 'member', x, self.peel(st, args[1])))]

    def f_starts_with(self, F, bb, st, inst, args, t, sp):
        x, pt = self.peel(st, args[0]), self.pat(st, args[1])
        if x.op == 'str' and pt.op == 'str':
            return [(st, I(x.a[0].startswith(pt.a[0])))]
        return [(st, mk('starts', x, pt))]

    def f_ends_with(self, F, bb, st, inst, args, t, sp):
        x, pt = self.peel(st, args[0]), self.pat(st, args[1])
        if x.op == 'str' and pt.op == 'str':
            return [(st, I(x.a[0].endswith(pt.a[0])))]
        return [(st, mk('ends', x, pt))]

    def f_find(self, F, bb, st, inst, args, t, sp):
        it = self.it
        dty = self.dty(F, t, inst)
        if 'Iterator' in inst['d']:
            return self.iter_find(F, bb, st, inst, args, t, sp)
        x, pt = self.peel(st, args[0]), self.pat(st, args[1])
        if pt.op not in ('str', 'charset'):
            pt2 = pt
        out = []
        for s, v in self.split_bool(st, mk('contains', x, pt)):
            if v:
                p = mk('findpos', x, pt, me_of(inst), ty=self.payload_ty(dty, 'Some'))
                it.constrain(s, p, it.len_(x), -2 ** 130, -1)
                out.append((s, self.enum_of(dty, 'Some', p)))
            else:
                out.append((s, self.enum_of(dty, 'None')))
        return out

    f_rfind = f_find

    def f_strip_prefix(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        me = method(inst['d'])
        op = 'starts' if me == 'strip_prefix' else 'ends'
        x, pt = self.peel(st, args[0]), self.pat(st, args[1])
        out = []
        for s, v in self.split_bool(st, mk(op, x, pt)):
            if v:
                out.append((s, self.enum_of(dty, 'Some', self.it.mkbox(mk('strip', x, pt, op)))))
            else:
                out.append((s, self.enum_of(dty, 'None')))
        return out

    f_strip_suffix = f_strip_prefix

    def f_split_once(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        x, pt = self.peel(st, args[0]), self.pat(st, args[1])
        out = []
        stream = mk('splitn', x, I(2), pt)
        for s, v in self.split_bool(st, mk('contains', x, pt)):
            if v:
                out.append((s, self.enum_of(dty, 'Some', mk('tup', mk('box', mk('item', stream, I(0))),
                                                            mk('box', mk('item', stream, I(1)))))))
            else:
                out.append((s, self.enum_of(dty, 'None')))
        return out

    def f_parse(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        s = self.peel(st, args[0])
        okty = self.payload_ty(dty, 'Ok')
        if okty is not None and self.p.types[okty]['k'] == 'adt' and self.p.types[okty].get('local'):
            x = self.local_from_str(okty)
            if x is not None:
                return self.it.call_inst(F, bb, st, x, [self.it.mkbox(s)], t, sp)
        return self.parse_out(F, bb, st, s, dty, sp)

    def local_from_str(self, okty):
        for x in self.p.insts:
            if x['local'] and x['body'] and x['n'].endswith('::from_str') and 'FromStr' in x['n']:
                rt = self.p.types[x['body']['locals'][0]]
                if rt['k'] == 'adt' and rt['v'][0]['f'] and rt['v'][0]['f'][0][1] == okty:
                    return x
        return None

    def parse_out(self, F, bb, st, s, dty, sp, extra=()):
        it = self.it
        okty, erty = self.payload_ty(dty, 'Ok'), self.payload_ty(dty, 'Err')
        def g(x):
            return mk('parse', x, *extra, ty=okty)
        v = self.mapalt(st, s, g)
        it.emit(st, F, 'parse', (s, okty, extra), bb, sp)
        s2 = st.copy()
        ok = self.enum_of(dty, 'Ok', v)
        er = self.enum_of(dty, 'Err', mk('parseerr', s, okty, ty=erty))
        return [(st, ok), (s2, er)]

    def f_from_str(self, F, bb, st, inst, args, t, sp):
        if 'Arguments' in inst['d']:
            return [(st, mk('fmtargs', self.peel(st, args[0])))]
        if 'Vec' in inst['d'] or 'String' in inst['d']:
            return None
        return self.parse_out(F, bb, st, self.peel(st, args[0]), self.dty(F, t, inst), sp)

    def f_from_str_radix(self, F, bb, st, inst, args, t, sp):
        r = args[1]
        lo, hi = self.it.iv(st, r)
        self.it.obligation(st, F, bb, 'radix', lo >= 2 and hi <= 36, 'radix in 2..=36', sp)
        return self.parse_out(F, bb, st, self.peel(st, args[0]), self.dty(F, t, inst), sp, (r,))

    # ------------------------------------------------------------ formatting
    def f_new(self, F, bb, st, inst, args, t, sp):
        d = inst['d']
        if 'Arguments' in d:
            return [(st, mk('fmtargs', self.template(st, self.peel(st, args[0]), self.peel(st, args[1]))))]
        if 'HashMap' in d or 'BTreeMap' in d or 'HashSet' in d:
            return [(st, mk('map0'))]
        if 'String' in d and not args:
            return [(st, S(''))]
        if 'Vec' in d and not args:
            return [(st, mk('arr'))]
        if 'Box' in d and len(args) == 1:
            self.it.fresh += 1
            c = ('h', 'box:%s:%d' % (F.path, bb))
            st.mem[c] = args[0]
            return [(st, mk('hbox', c))]
        return None

    def f_with_capacity(self, F, bb, st, inst, args, t, sp):
        if 'String' in inst['d']:
            return [(st, S(''))]
        if 'Vec' in inst['d']:
            return [(st, mk('arr'))]
        return None

    def bytes_of(self, t):
        if t.op == 'bytes_':
            return list(t.a[0])
        if t.op == 'arr' and all(x.op == 'int' for x in t.a):
            return [x.a[0] for x in t.a]
        return None

    def usize_arg(self, a):
        x = a.a[0] if a.op == 'farg' else a
        x = x.a[0] if isinstance(x, T) and x.op == 'width' else x
        return x.a[0] if isinstance(x, T) and x.op == 'int' else None

    def template(self, st, tpl, args):
        b = self.bytes_of(tpl)
        if b is None:
            return mk('fmtopaque', tpl, args)
        xs = list(args.a) if args.op == 'arr' else None
        out = []
        i = 0
        nexta = 0
        n = len(b)
        while i < n:
            c = b[i]
            i += 1
            if c == 0:
                break
            if c < 0x80:
                out.append(S(bytes(b[i:i + c]).decode('utf8', 'replace')))
                i += c
            elif c == 0x80:
                ln = b[i] | b[i + 1] << 8
                i += 2
                out.append(S(bytes(b[i:i + ln]).decode('utf8', 'replace')))
                i += ln
            else:
                spec = []
                if c & 1:
                    spec.append('f%x' % int.from_bytes(bytes(b[i:i + 4]), 'little'))
                    i += 4
                if c & 2:
                    spec.append('w%d' % (b[i] | b[i + 1] << 8))
                    i += 2
                if c & 4:
                    spec.append('p%d' % (b[i] | b[i + 1] << 8))
                    i += 2
                for bit, ch in ((0x10, 'w'), (0x20, 'p')):
                    # an indirect width or precision: the value of an argument, when it is a known one
                    if c & bit:
                        j = next((int(e[1:]) for e in spec if e[0] == ch), None)
                        v = self.usize_arg(xs[j]) if xs is not None and j is not None and j < len(xs) else None
                        if v is not None:
                            spec = [ch + str(v) if e[0] == ch else e for e in spec]
                            c &= ~bit
                idx = nexta
                if c & 8:
                    idx = b[i] | b[i + 1] << 8
                    i += 2
                nexta = idx + 1
                spec.append('k%x' % (c & 0x30))if c & 0x30 else None
                a = xs[idx] if xs is not None and idx < len(xs) else mk('item', args, I(idx))
                if a.op == 'farg':
                    x = a.a[0]
                    out.append(mk('spec', x, ','.join(spec)) if spec else x)
                else:
                    out.append(mk('disp', a, ','.join(spec)))
        return cat(*out)

    def disp(self, st, x, ty):
        """text of x under Display"""
        x = self.peel(st, x)
        e = self.deep_ty(ty) if ty is not None else None
        if e is not None and self.isstr_ty(e) or x.op in ('str', 'cat', 'joinstr'):
            return x
        if e is not None and self.p.types[e]['k'] == 'char' and x.op == 'int':
            return S(chr(x.a[0]))
        if e is not None and self.p.types[e]['k'] in ('int', 'uint') and x.op == 'int':
            return S(str(x.a[0]))
        return mk('disp', x, e)

    def f_new_display(self, F, bb, st, inst, args, t, sp):
        ty = self.deep_ty(self.aty(F, t, inst, 0))
        return [(st, mk('farg', self.disp(st, args[0], ty)))]

    def f_new_debug(self, F, bb, st, inst, args, t, sp):
        return [(st, mk('farg', mk('dbg', self.peel(st, args[0]))))]

    def f_new_lower_hex(self, F, bb, st, inst, args, t, sp):
        return [(st, mk('farg', mk('hex', self.peel(st, args[0]), 'x')))]

    def f_new_upper_hex(self, F, bb, st, inst, args, t, sp):
        return [(st, mk('farg', mk('hex', self.peel(st, args[0]), 'X')))]

    def f_from_usize(self, F, bb, st, inst, args, t, sp):
        return [(st, mk('farg', mk('width', self.peel(st, args[0]))))]

    def f_format(self, F, bb, st, inst, args, t, sp):
        a = args[0]
        return [(st, a.a[0] if a.op == 'fmtargs' else mk('fmtstr', a))]

    def append_fmt(self, st, F, f, s):
        cp = self.cell_of(st, f)
        if cp is None:
            return False
        self.setcell(st, F, cp, cat(self.getcell(st, cp), s))
        return True

    def f_write_fmt(self, F, bb, st, inst, args, t, sp):
        a = args[1]
        s = a.a[0] if a.op == 'fmtargs' else mk('fmtstr', a)
        self.append_fmt(st, F, args[0], s)
        return [(st, self.enum_of(self.dty(F, t, inst), 'Ok', UNIT))]

    def f_write_str(self, F, bb, st, inst, args, t, sp):
        self.append_fmt(st, F, args[0], self.peel(st, args[1]))
        return [(st, self.enum_of(self.dty(F, t, inst), 'Ok', UNIT))]

    f_pad = f_write_str

    def f_write_char(self, F, bb, st, inst, args, t, sp):
        self.append_fmt(st, F, args[0], self.pat(st, args[1]))
        return [(st, self.enum_of(self.dty(F, t, inst), 'Ok', UNIT))]

    def f_fmt(self, F, bb, st, inst, args, t, sp):
        if 'Debug' in inst['d']:
            return None
        ty = self.deep_ty(self.aty(F, t, inst, 0))
        if not self.append_fmt(st, F, args[1], self.disp(st, args[0], ty)):
            return None
        return [(st, self.enum_of(self.dty(F, t, inst), 'Ok', UNIT))]

    def m_local_display(self, F, bb, st, inst, args, t, sp):
        return self.f_fmt(F, bb, st, inst, args, t, sp)

    def f_to_string(self, F, bb, st, inst, args, t, sp):
        ty = self.deep_ty(self.aty(F, t, inst, 0))
        if ty is None:
            ty = self.deep_ty(inst['args'][0]) if inst['args'] else None
        return [(st, self.disp(st, args[0], ty))]

    def f_push_str(self, F, bb, st, inst, args, t, sp):
        if self.append_fmt(st, F, args[0], self.peel(st, args[1])):
            return [(st, UNIT)]
        return None

    def f_add(self, F, bb, st, inst, args, t, sp):
        if 'String' in inst['d']:
            return [(st, cat(self.peel(st, args[0]), self.peel(st, args[1])))]
        return None

    def f_add_assign(self, F, bb, st, inst, args, t, sp):
        if 'String' in inst['d']:
            if self.append_fmt(st, F, args[0], self.peel(st, args[1])):
                return [(st, UNIT)]
        if 'Wrapping' in inst['d']:
            cp = self.cell_of(st, args[0])
            if cp:
                old = self.getcell(st, cp)
                aty = self.deep_ty(self.aty(F, t, inst, 0))
                self.setcell(st, F, cp, mk('wrapadd', old, args[1], ty=aty))
                return [(st, UNIT)]
        return None

    # ------------------------------------------------------------ lists
    def f_push(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        v = self.getcell(st, cp)
        if 'String' in inst['d'].split('push')[0] and 'Vec' not in inst['d']:
            self.setcell(st, F, cp, cat(v, self.pat(st, args[1])))
            return [(st, UNIT)]
        self.it.emit(st, F, 'push', (v, args[1], cp), bb, sp)
        self.setcell(st, F, cp, self.vpush(v, args[1]))
        return [(st, UNIT)]

    def vpush(self, v, x):
        if v.op == 'arr' and len(v.a) < self.VMAX:
            return mk('arr', *(v.a + (x,)))
        return mk('vpush', v, x)

    def f_pop(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        it = self.it
        dty = self.dty(F, t, inst)
        v = self.getcell(st, cp)
        n = it.len_(v)
        out = []
        for s, b in self.split_bool(st, it.b_eq(n, I(0))):
            if b:
                out.append((s, self.enum_of(dty, 'None')))
            else:
                last = it.item(s, v, it.sub(n, I(1)), self.payload_ty(dty, 'Some'))
                self.setcell(s, F, cp, v.a[0] if v.op == 'vpush' else mk('slice', v, I(0), it.sub(n, I(1))))
                it.emit(s, F, 'take', (v, last), bb, sp)
                out.append((s, self.enum_of(dty, 'Some', last)))
        return out

    def f_remove(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None or 'Vec' not in inst['d']:
            return None
        it = self.it
        v = self.getcell(st, cp)
        n = it.len_(v)
        idx = args[1]
        it.obligation(st, F, bb, 'remove', it.prove_lt(st, idx, n), '%s < %s' % (show(idx, 4), show(n, 4)), sp)
        it.constrain(st, idx, n, -2 ** 130, -1)
        x = it.item(st, v, idx, self.dty(F, t, inst))
        it.emit(st, F, 'take', (v, x), bb, sp)
        if idx.op == 'int' and idx.a[0] == 0:
            nv = mk('arr', *v.a[1:]) if v.op == 'arr' else \
                (mk('slice', v.a[0], it.add(v.a[1], I(1)), v.a[2]) if v.op == 'slice' else mk('slice', v, I(1), None))
        else:
            nv = mk('vremove', v, idx)
        self.setcell(st, F, cp, nv)
        return [(st, x)]

    f_swap_remove = f_remove

    def f_clear(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        v = self.getcell(st, cp)
        self.setcell(st, F, cp, S('') if 'String' in inst['d'] else mk('arr'))
        return [(st, UNIT)]

    def range_of(self, r):
        """(start|None, end|None, inclusive) of a Range* value"""
        if r.op != 'adt':
            return None
        n = short(self.p.types[r.a[0]]['n'])
        if n == 'RangeFull':
            return None, None
        if n == 'RangeFrom':
            return r.a[2], None
        if n == 'RangeTo':
            return None, r.a[2]
        if n == 'Range':
            return r.a[2], r.a[3]
        if n == 'RangeInclusive':
            return r.a[2], self.it.add(r.a[3], I(1))
        if n == 'RangeToInclusive':
            return None, self.it.add(r.a[2], I(1))
        return None

    def f_drain(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        it = self.it
        v = self.getcell(st, cp)
        rg = self.range_of(args[1])
        if rg is None:
            it.obligation(st, F, bb, 'drain', False, show(args[1], 4), sp)
            return self.opaque_result(F, bb, st, inst, args, t, sp)
        n = it.len_(v)
        a, b = rg
        a0 = a or I(0)
        ok = it.prove_le(st, a0, b if b is not None else n) and (b is None or it.prove_le(st, b, n))
        it.obligation(st, F, bb, 'drain', ok, '%s..%s <= %s' % (show(a0, 4), show(b, 4) if b else '', show(n, 4)), sp)
        taken = v if (a is None or a.op == 'int' and a.a[0] == 0) and b is None else mk('slice', v, a0, b)
        rest = mk('arr') if taken is v else (mk('slice', v, I(0), a0) if b is None else
                                              mk('slice', v, b, None) if a0 is I(0) else mk('vdrained', v, a0, b))
        self.setcell(st, F, cp, rest)
        return [(st, mk('iter', taken, I(0)))]

    def f_split_off(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        it = self.it
        v = self.getcell(st, cp)
        n = it.len_(v)
        it.obligation(st, F, bb, 'split_off', it.prove_le(st, args[1], n), '', sp)
        self.setcell(st, F, cp, mk('slice', v, I(0), args[1]))
        return [(st, mk('slice', v, args[1], None))]

    def f_truncate(self, F, bb, st, inst, args, t, sp):
        return None

    def f_index(self, F, bb, st, inst, args, t, sp):
        it = self.it
        if 'HashMap' in inst['d']:
            return None
        v = it.simp(st, self.peel(st, args[0]))
        idx = args[1]
        n = it.len_(v)
        dty = self.dty(F, t, inst)
        ety = self.p.types[dty]['e'] if dty is not None else None
        ity = self.aty(F, t, inst, 1)
        if ity is not None and self.p.types[ity]['k'] == 'uint':
            it.obligation(st, F, bb, 'index', it.prove_lt(st, idx, n), '%s < %s' % (show(idx, 5), show(n, 5)), sp)
            it.constrain(st, idx, n, -2 ** 130, -1)
            return [(st, it.mkbox(it.item(st, v, idx, ety)))]
        rg = self.range_of(idx)
        if rg is None:
            it.obligation(st, F, bb, 'index', False, show(idx, 4), sp)
            return self.opaque_result(F, bb, st, inst, args, t, sp)
        a, b = rg
        if a is None and b is None:
            return [(st, it.mkbox(v))]
        a0 = a or I(0)
        ok = it.prove_le(st, a0, b if b is not None else n) and (b is None or it.prove_le(st, b, n))
        aty = self.deep_ty(self.aty(F, t, inst, 0))
        det = '%s..%s of %s' % (show(a0, 4), show(b, 4) if b is not None else '', show(n, 4))
        if self.isstr_ty(aty):
            # char boundaries: 0, len, or next to a known ASCII affix
            ok2 = self.boundary(st, v, a0) and (b is None or self.boundary(st, v, b))
            ok = ok and ok2
            det += ' on char boundaries'
        it.obligation(st, F, bb, 'slice', ok, det, sp)
        try:
            it.constrain(st, a0, b if b is not None else n, -2 ** 130, 0)
            if b is not None:
                it.constrain(st, b, n, -2 ** 130, 0)
        except Dead:
            return []
        if a0 is I(0) and (b is None or b is n):
            return [(st, it.mkbox(v))]
        return [(st, it.mkbox(mk('slice', v, a0, b)))]

    def boundary(self, st, s, i):
        it = self.it
        n = it.len_(s)
        if i is I(0) or i is n:
            return True
        for k, f in st.facts.items():
            if f != ('iv', 1, 1):
                continue
            if k.op in ('starts', 'ends') and k.a[0] is s and k.a[1].op == 'str':
                p = k.a[1].a[0]
                if not p.isascii():
                    continue
                if k.op == 'starts' and i.op == 'int' and i.a[0] <= len(p):
                    return True
                if k.op == 'ends':
                    base, c = it.lin(it.sub(i, n))
                    if base is None and -len(p) <= c <= 0:
                        return True
        if i.op == 'findpos' and i.a[0] is s:
            return True
        if i.op == 'add' and i.a[0].op == 'findpos' and i.a[0].a[0] is s and i.a[0].a[1].op == 'str' \
                and len(i.a[0].a[1].a[0].encode()) == i.a[1].a[0]:
            return True
        return False

    def f_index_mut(self, F, bb, st, inst, args, t, sp):
        it = self.it
        cp = self.cell_of(st, args[0])
        if cp is None or 'HashMap' in inst['d']:
            return None
        v = self.getcell(st, cp)
        n = it.len_(v)
        ity = self.aty(F, t, inst, 1)
        if self.p.types[ity]['k'] != 'uint':
            it.obligation(st, F, bb, 'index', False, '', sp)
            return self.opaque_result(F, bb, st, inst, args, t, sp)
        it.obligation(st, F, bb, 'index', it.prove_lt(st, args[1], n), '%s < %s' % (show(args[1], 5), show(n, 5)), sp)
        ety = self.p.types[self.dty(F, t, inst)]['e']
        return [(st, mk('ref', cp[0], cp[1] + (('i', args[1], ety),)))]

    def f_get(self, F, bb, st, inst, args, t, sp):
        it = self.it
        dty = self.dty(F, t, inst)
        if 'HashMap' in inst['d'] or 'BTreeMap' in inst['d']:
            m, k = self.peel(st, args[0]), self.peel(st, args[1])
            some = self.payload_ty(dty, 'Some')
            out = []
            for s, v in self.split_bool(st, mk('bool', 'mapget', m, k)):
                if v:
                    out.append((s, self.enum_of(dty, 'Some', it.mkbox(mk('mapget', m, k, ty=self.p.types[some]['e'])))))
                else:
                    out.append((s, self.enum_of(dty, 'None')))
            return out
        if len(args) < 2:
            return None
        v = it.simp(st, self.peel(st, args[0]))
        idx = args[1]
        ity = self.aty(F, t, inst, 1)
        if ity is None or self.p.types[ity]['k'] != 'uint':
            return None
        some = self.payload_ty(dty, 'Some')
        n = it.len_(v)
        out = []
        for s, b in self.split_bool(st, it.b_lt(idx, n)):
            if b:
                out.append((s, self.enum_of(dty, 'Some', it.mkbox(it.item(s, v, idx, self.p.types[some]['e'])))))
            else:
                out.append((s, self.enum_of(dty, 'None')))
        return out

    def f_first(self, F, bb, st, inst, args, t, sp):
        it = self.it
        dty = self.dty(F, t, inst)
        v = it.simp(st, self.peel(st, args[0]))
        n = it.len_(v)
        some = self.payload_ty(dty, 'Some')
        if some is None or 'Iterator' in inst['d']:
            return None
        last = method(inst['d']) == 'last'
        out = []
        for s, b in self.split_bool(st, it.b_eq(n, I(0))):
            if b:
                out.append((s, self.enum_of(dty, 'None')))
            else:
                out.append((s, self.enum_of(dty, 'Some', it.mkbox(
                    it.item(s, v, it.sub(n, I(1)) if last else I(0), self.p.types[some].get('e'))))))
        return out

    f_last = f_first

    def f_insert(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        v = self.getcell(st, cp)
        if 'HashMap' in inst['d'] or 'BTreeMap' in inst['d']:
            self.it.emit(st, F, 'mapins', (v, args[1], args[2], cp), bb, sp)
            self.setcell(st, F, cp, mk('mapins', v, args[1], args[2]))
            return [(st, self.it.opq('oldval', self.dty(F, t, inst), self.it.curmarks()))]
        if 'Vec' in inst['d']:
            it = self.it
            it.obligation(st, F, bb, 'insert', it.prove_le(st, args[1], it.len_(v)), '', sp)
            self.setcell(st, F, cp, mk('vinsert', v, args[1], args[2]))
            return [(st, UNIT)]
        return None

    def f_extend(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        v = self.getcell(st, cp)
        a1 = args[1]
        ty = self.aty(F, t, inst, 1)
        if ty is not None and self.p.types[ty]['k'] == 'adt' and short(self.p.types[ty]['n']) == 'Option':
            a1 = self.to_iter(st, a1, ty)
        src = self.to_list(F, bb, st, a1)
        nv = mk('vcat', v, src) if not (v.op == 'arr' and not v.a) else src
        self.it.emit(st, F, 'extend', (v, src, cp), bb, sp)
        self.setcell(st, F, cp, nv)
        return [(st, UNIT)]

    f_extend_from_slice = f_extend

    def f_append(self, F, bb, st, inst, args, t, sp):
        cp, c2 = self.cell_of(st, args[0]), self.cell_of(st, args[1])
        if cp is None or c2 is None:
            return None
        v, w = self.getcell(st, cp), self.getcell(st, c2)
        self.setcell(st, F, cp, mk('vcat', v, w) if not (v.op == 'arr' and not v.a) else w)
        self.setcell(st, F, c2, mk('arr'))
        return [(st, UNIT)]

    def f_retain(self, F, bb, st, inst, args, t, sp):
        if 'HashMap' in inst['d'] or 'BTreeMap' in inst['d']:
            return None
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        it = self.it
        v = self.getcell(st, cp)
        star = self.star(v)
        el = it.item(st, v, star)
        outs = self.isolated(F, bb, st, args[1], [it.mkbox(el)])
        keep = self.keep_conds(outs)
        self.setcell(st, F, cp, mk('vfilt', v, el, keep))
        it.emit(st, F, 'retain', (v, el, keep), bb, sp)
        return [(st, UNIT)]

    def f_reverse(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        self.setcell(st, F, cp, mk('rev', self.getcell(st, cp)))
        return [(st, UNIT)]

    def f_deref_mut(self, F, bb, st, inst, args, t, sp):
        return [(st, args[0])]

    f_as_mut = None

    def f_join(self, F, bb, st, inst, args, t, sp):
        v = self.it.simp(st, self.peel(st, args[0]))
        sep = self.pat(st, args[1]) if len(args) > 1 else S('')
        return [(st, self.joinstr(v, sep))]

    f_concat = f_join

    def joinstr(self, v, sep):
        if v.op == 'arr':
            out = []
            for i, x in enumerate(v.a):
                if i:
                    out.append(sep)
                while x.op == 'box':
                    x = x.a[0]
                out.append(x)
            return cat(*out) if out else S('')
        return mk('joinstr', v, sep)

    def f_new_uninit(self, F, bb, st, inst, args, t, sp):
        c = ('h', 'box:%s:%d' % (F.path, bb))
        st.mem[c] = self.it.opq('uninit')
        return [(st, mk('hbox', c))]

    def f_box_assume_init_into_vec_unsafe(self, F, bb, st, inst, args, t, sp):
        v = args[0]
        if v.op == 'hbox':
            x = self.it.read_cell(st, v.a[0])
            # MaybeUninit / ManuallyDrop wrappers
            while x.op == 'adt' and len(x.a) == 3:
                x = x.a[2]
            return [(st, x)]
        return None

    # ------------------------------------------------------------ iterators
    def f_iter(self, F, bb, st, inst, args, t, sp):
        x = self.it.simp(st, self.peel(st, args[0]))
        e = self.it.ty_of(x)
        if e is not None and self.p.types[e]['k'] == 'adt' and short(self.p.types[e]['n']) == 'Option':
            x = mk('arr', *x.a[2:]) if x.op == 'adt' else mk('optlist', x)
        return [(st, mk('iter', mk('refs', x), I(0)))]

    def f_into_iter(self, F, bb, st, inst, args, t, sp):
        return [(st, self.to_iter(st, args[0], self.aty(F, t, inst, 0)))]

    def to_iter(self, st, v, ty=None):
        if v.op == 'iter':
            return v
        if ty is not None and self.p.types[ty]['k'] == 'adt' and short(self.p.types[ty]['n']) in ('Range', 'RangeInclusive'):
            return v
        if v.op == 'ref':
            return mk('iter', mk('mrefs', self.it.read_path(st, v.a[0], v.a[1]), v.a[0], v.a[1]), I(0))
        if v.op == 'box':
            return mk('iter', mk('refs', self.it.simp(st, self.peel(st, v))), I(0))
        if self.isref(v):
            return mk('iter', mk('refs', self.peel(st, v)), I(0))
        if ty is not None and self.p.types[ty]['k'] == 'adt' and short(self.p.types[ty]['n']) == 'Option':
            if v.op == 'adt':
                return mk('iter', mk('arr', *v.a[2:]), I(0))
            return mk('iter', mk('optlist', v), I(0))
        k = self.p.types[ty] if ty is not None else None
        return mk('iter', v, I(0))

    def to_list(self, F, bb, st, v):
        v = self.it.simp(st, v)
        if v.op == 'iter':
            return self.collect_list(F, bb, st, v)[0]
        if v.op == 'box' or self.isref(v):
            return self.peel(st, v)
        return v

    def split_src(op):
        def f(self, F, bb, st, inst, args, t, sp):
            s = self.peel(st, args[0])
            rest = [a if op == 'splitn' and i == 0 else self.pat(st, a) for i, a in enumerate(args[1:])]
            return [(st, mk('iter', mk(op, s, *rest), I(0)))]
        return f

    f_split = split_src('split')
    f_rsplit = split_src('rsplit')
    f_splitn = split_src('splitn')
    f_rsplitn = split_src('rsplitn')
    f_split_terminator = split_src('split_terminator')
    f_split_inclusive = split_src('split_inclusive')
    f_split_whitespace = split_src('splitws')
    f_split_ascii_whitespace = split_src('splitaws')
    f_lines = split_src('lines')
    f_chars = split_src('chars')
    f_bytes = split_src('bytes')
    f_char_indices = split_src('char_indices')

    def ad(op):
        def f(self, F, bb, st, inst, args, t, sp):
            a = args[0]
            if a.op != 'iter':
                if 'Iterator' not in inst['d']:
                    return None
                a = self.to_iter(st, a)
            stream = self.at(a)
            return [(st, mk('iter', mk(op, stream, *args[1:]), I(0)))]
        return f

    def at(self, itv):
        """stream of the remaining elements of an iterator value"""
        s, pos = itv.a
        if pos.op == 'int' and pos.a[0] == 0:
            return s
        return mk('slice', s, pos, None)

    f_map = ad('map')
    f_filter = ad('filter')
    f_filter_map = ad('filtmap')
    f_flat_map = ad('flatmap')
    f_enumerate = ad('enum')
    f_rev = ad('rev')
    f_skip = ad('skip')
    f_take = ad('take')
    f_take_while = ad('takewhile')
    f_skip_while = ad('skipwhile')
    f_chain = ad('chain')
    f_zip = ad('zip')
    f_flatten = ad('flatten')
    f_map_while = ad('mapwhile')

    def f_peekable(self, F, bb, st, inst, args, t, sp):
        return [(st, args[0])]

    f_by_ref = None
    f_fuse = f_peekable

    def f_copied(self, F, bb, st, inst, args, t, sp):
        a = args[0]
        if a.op == 'iter' and a.a[0].op == 'refs':
            return [(st, mk('iter', a.a[0].a[0], a.a[1]))]
        return None

    f_cloned = f_copied

    # one step of a stream -----------------------------------------------------
    def slen(self, stream):
        """symbolic length of a stream, None when filtered"""
        it = self.it
        if stream.op in ('refs', 'mrefs'):
            return it.len_(stream.a[0])
        if stream.op in ('map', 'enum', 'rev'):
            return self.slen(stream.a[0])
        if stream.op == 'slice':
            n = self.slen(stream.a[0]) if stream.a[2] is None else stream.a[2]
            return it.sub(n, stream.a[1])
        if stream.op in ('filter', 'filtmap', 'flatmap', 'skip', 'take', 'takewhile', 'skipwhile', 'chain', 'zip',
                         'flatten', 'mapwhile', 'optlist'):
            return mk('len', stream)
        return it.len_(stream)

    def step(self, F, bb, st, stream, pos):
        """element `pos` of the stream: list of (state, element) — the element exists"""
        it = self.it
        op = stream.op
        if op == 'refs':
            return [(st, it.mkbox(it.item(st, stream.a[0], pos)))]
        if op == 'mrefs':
            return [(st, mk('ref', stream.a[1], stream.a[2] + (('i', pos, None),)))]
        if op == 'Enum':
            return [(s, mk('tup', pos, x)) for s, x in self.step(F, bb, st, stream.a[0], pos)]
        if op == 'slice':
            return self.step(F, bb, st, stream.a[0], it.add(stream.a[1], pos))
        if op == 'rev':
            return self.step(F, bb, st, stream.a[0], mk('revpos', stream.a[0], pos))
        if op == 'map':
            out = []
            for s, x in self.step(F, bb, st, stream.a[0], pos):
                out.extend(it.call_value(F, bb, s, stream.a[1], [x], None, None))
            return out
        if op in ('filter', 'filtmap', 'flatmap', 'takewhile', 'skipwhile', 'mapwhile', 'skip', 'take', 'flatten'):
            inner = stream.a[0]
            ip = mk('ipos', inner, pos, op, marks=it.curmarks())
            n = self.slen(inner)
            try:
                it.meet_iv(st, ip, 0, 2 ** 63 - 1)
                it.constrain(st, ip, n, -2 ** 130, -1)
            except Dead:
                return []
            out = []
            for s, x in self.step(F, bb, st, inner, ip):
                if op in ('filter', 'takewhile'):
                    for s2, r in it.call_value(F, bb, s, stream.a[1], [it.mkbox(x)], None, None):
                        try:
                            it.assume(s2, r, True)
                            out.append((s2, x))
                        except Dead:
                            pass
                elif op in ('skip', 'take', 'skipwhile'):
                    out.append((s, x))
                elif op in ('filtmap', 'mapwhile'):
                    for s2, r in it.call_value(F, bb, s, stream.a[1], [x], None, None):
                        r = it.simp(s2, r)
                        ty = it.ty_of(r)
                        try:
                            it.assume_var(s2, r, [1])
                            out.append((s2, it.field(s2, r, 1, 0, self.p.types[ty]['v'][1]['f'][0][1])))
                        except Dead:
                            pass
                else:
                    rs = it.call_value(F, bb, s, stream.a[1], [x], None, None) if op == 'flatmap' else [(s, x)]
                    for s2, r in rs:
                        sub = self.to_iter(s2, r).a[0]
                        jp = mk('jpos', sub, pos, marks=it.curmarks())
                        try:
                            it.meet_iv(s2, jp, 0, 2 ** 63 - 1)
                            it.constrain(s2, jp, self.slen(sub), -2 ** 130, -1)
                            out.extend(self.step(F, bb, s2, sub, jp))
                        except Dead:
                            pass
            return out
        if op in ('split', 'splitn', 'splitws', 'lines', 'rsplit', 'rsplitn', 'splitaws'):
            x = mk('item', stream, pos)
            if op in ('splitws', 'splitaws'):
                st.facts.setdefault(x, ('ne', frozenset([''])))
            return [(st, mk('box', x))]
        if op == 'chars':
            return [(st, mk('item', stream, pos, ty=it.p.find_ty(lambda k: k['k'] == 'char')))]
        return [(st, it.item(st, stream, pos))]

    def next_(self, F, bb, st, itv):
        """list of (state, element or None, new iterator)"""
        it = self.it
        itv = it.simp(st, itv)
        if itv.op != 'iter':
            return None
        stream, pos = itv.a
        n = self.slen(stream)
        out = []
        for s, b in self.split_bool(st, it.b_lt(pos, n)):
            if b:
                for s2, x in self.step(F, bb, s, stream, pos):
                    out.append((s2, x, mk('iter', stream, it.add(pos, I(1)))))
            else:
                out.append((s, None, itv))
        return out

    def f_next(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        it = self.it
        dty = self.dty(F, t, inst)
        v = self.getcell(st, cp)
        if v.op == 'adt' and short(self.p.types[v.a[0]]['n']) == 'Range':
            lo, hi = v.a[2], v.a[3]
            out = []
            for s, b in self.split_bool(st, it.b_lt(lo, hi)):
                if b:
                    self.setcell(s, F, cp, it.adt(v.a[0], 0, it.add(lo, I(1)), hi))
                    out.append((s, self.enum_of(dty, 'Some', lo)))
                else:
                    out.append((s, self.enum_of(dty, 'None')))
            return out
        if v.op != 'iter' and v.op != 'alt':
            # an opaque iterator argument: give it a stream identity
            v = mk('iter', mk('ostream', v), I(0))
        r = self.next_(F, bb, st, v)
        if r is None:
            return None
        out = []
        some = self.payload_ty(dty, 'Some')
        for s, x, nit in r:
            self.setcell(s, F, cp, nit)
            if x is None:
                out.append((s, self.enum_of(dty, 'None')))
            else:
                if x.op == 'item' and x.ty is None and some is not None:
                    x = mk('item', *x.a, ty=some)
                out.append((s, self.enum_of(dty, 'Some', x)))
        return out

    def f_nth(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        v = self.getcell(st, cp)
        if v.op != 'iter':
            return None
        self.setcell(st, F, cp, mk('iter', v.a[0], self.it.add(v.a[1], args[1])))
        return self.f_next(F, bb, st, inst, args, t, sp)

    def f_peek(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        it = self.it
        dty = self.dty(F, t, inst)
        v = self.getcell(st, cp)
        if v.op != 'iter' and v.op != 'alt':
            v = mk('iter', mk('ostream', v), I(0))
            self.setcell(st, F, cp, v)
        r = self.next_(F, bb, st, v)
        if r is None:
            return None
        some = self.payload_ty(dty, 'Some')
        ety = self.p.types[some]['e'] if some is not None else None
        out = []
        for s, x, nit in r:
            if x is None:
                out.append((s, self.enum_of(dty, 'None')))
            else:
                if x.op == 'item' and x.ty is None:
                    x = mk('item', *x.a, ty=ety)
                out.append((s, self.enum_of(dty, 'Some', it.mkbox(x))))
        return out

    # whole-stream evaluation -----------------------------------------------------
    def star(self, stream):
        return mk('star', stream, ty=self.it.p.find_ty(lambda k: k['k'] == 'uint' and k['n'] == 'usize'))

    def starred(self, F, bb, st, itv):
        """one abstract element of the iterator, on a copy of the state"""
        it = self.it
        itv = it.simp(st, itv)
        if itv.op != 'iter':
            itv = mk('iter', mk('ostream', itv), I(0))
        stream = self.at(itv)
        s = st.copy()
        star = self.star(stream)
        try:
            it.meet_iv(s, star, 0, 2 ** 63 - 1)
            it.constrain(s, star, self.slen(stream), -2 ** 130, -1)
        except Dead:
            return stream, star, []
        return stream, star, self.step(F, bb, s, stream, star)

    def effects(self, st, outs):
        """cells a closure may have changed become unknown"""
        it = self.it
        for s, _ in outs:
            for c, v in s.mem.items():
                if c in st.mem and st.mem[c] is not v:
                    old = st.mem[c]
                    it.fresh += 1
                    ph = mk('phi', ('e', it.fresh), (), ty=it.ty_of(old), marks=it.curmarks())
                    it.src[ph] = {old, v}
                    st.mem[c] = ph
                    if old.op == 'iter':
                        st.mem[c] = mk('iter', old.a[0], mk('pos2', old.a[0], I(it.fresh)))

    def isolated(self, F, bb, st, clo, args):
        """run a closure on abstract arguments; only its effects on captured cells remain"""
        s = st.copy()
        try:
            outs = self.it.call_value(F, bb, s, clo, args, None, None)
        except Dead:
            outs = []
        self.effects(st, outs)
        return outs

    def joined(self, F, st, outs):
        """join the values of several outcomes, keeping which facts select which"""
        it = self.it
        r = None
        for s, v in outs:
            s2 = State({('r', 0): v}, s.facts)
            r = s2 if r is None else it.join(None, None, r, s2)
        return r.mem[('r', 0)] if r is not None else None

    def keep_conds(self, outs):
        """conditions under which a predicate holds (per accepting outcome)"""
        acc = []
        for s, r in outs:
            s2 = s.copy()
            try:
                self.it.assume(s2, r, True)
                acc.append(tuple(sorted(s2.facts.items(), key=lambda x: x[0].id)))
            except Dead:
                pass
        return tuple(acc)

    def filtered(self, stream):
        while True:
            if stream.op in ('filter', 'filtmap', 'flatmap', 'takewhile', 'skipwhile', 'chain', 'zip', 'flatten',
                             'skip', 'take', 'mapwhile', 'ostream', 'optlist'):
                return True
            if stream.op in ('map', 'enum', 'refs', 'rev', 'slice'):
                stream = stream.a[0]
                continue
            return False

    def base(self, stream):
        while stream.op in ('map', 'enum', 'filter', 'filtmap', 'flatmap', 'takewhile', 'skipwhile'):
            stream = stream.a[0]
        return stream

    def collect_list(self, F, bb, st, itv):
        """(list term, element outcomes)"""
        it = self.it
        stream, star, outs = self.starred(F, bb, st, itv)
        self.effects(st, outs)
        if stream.op in ('split', 'splitn', 'splitws', 'lines', 'arr', 'chars', 'bytes') or \
                stream.op not in ('map', 'filter', 'filtmap', 'flatmap', 'enum', 'refs', 'slice', 'rev', 'mrefs', 'takewhile',
                                  'skipwhile', 'chain', 'zip', 'flatten', 'skip', 'take', 'mapwhile', 'ostream', 'optlist'):
            return stream, outs
        if stream.op == 'slice' and stream.a[0].op not in ('map', 'filter', 'filtmap', 'flatmap', 'enum', 'refs'):
            return stream, outs
        el = self.joined(F, st, outs)
        if el is None:
            return mk('arr'), outs
        return self.mkcoll(st, stream, el, outs), outs

    def mkcoll(self, st, stream, el, outs):
        if self.filtered(stream):
            conds = tuple(tuple(sorted(((k, f) for k, f in s.facts.items() if st.facts.get(k) != f),
                                       key=lambda x: x[0].id)) for s, _ in outs)
            return mk('vfilt', self.base(stream), el, conds)
        return mk('vmap', mk('streamlen', stream) if False else stream, el)

    def map_item(self, st, v, idx):
        stream, el = v.a
        return self.subst(el, self.star(stream), idx)

    def subst(self, t, a, b, memo=None):
        memo = {} if memo is None else memo
        if t is a:
            return b
        if t in memo:
            return memo[t]
        def go(x):
            if isinstance(x, T):
                return self.subst(x, a, b, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        na = tuple(go(x) for x in t.a)
        r = t if na == t.a else mk(t.op, *na, ty=t.ty, marks=t.marks)
        memo[t] = r
        return r

    def f_collect(self, F, bb, st, inst, args, t, sp):
        it = self.it
        dty = self.dty(F, t, inst)
        k = self.p.types[dty]
        nm = short(k['n']) if k['k'] == 'adt' else k['k']
        itv = args[0]
        if nm == 'Vec':
            l, _ = self.collect_list(F, bb, st, itv)
            it.emit(st, F, 'collect', (l,), bb, sp)
            return [(st, l)]
        if nm == 'String':
            l, _ = self.collect_list(F, bb, st, itv)
            return [(st, self.joinstr(l, S('')))]
        if nm in ('Result', 'Option'):
            stream, star, outs = self.starred(F, bb, st, itv)
            self.effects(st, outs)
            good = 'Ok' if nm == 'Result' else 'Some'
            gi = [i for i, v in enumerate(k['v']) if v['n'] == good][0]
            gty = k['v'][gi]['f'][0][1]
            oks, errs = [], []
            for s, r in outs:
                ety = it.ty_of(r)
                for vi in it.varset(s, r):
                    s2 = s.copy()
                    try:
                        it.assume_var(s2, r, [vi])
                    except Dead:
                        continue
                    v = k['v'][vi]
                    pty = self.p.types[ety]['v'][vi]['f'][0][1] if ety is not None and self.p.types[ety]['v'][vi]['f'] else None
                    x = it.field(s2, r, vi, 0, pty) if pty is not None else None
                    (oks if vi == gi else errs).append((s2, x))
            res = []
            s2 = st.copy()
            if oks:
                el = self.joined(F, st, oks)
                ek = self.p.types[gty]
                if ek['k'] == 'adt' and short(ek['n']) == 'Vec':
                    l = self.mkcoll(st, stream, el, oks)
                    it.emit(st, F, 'collect', (l,), bb, sp)
                else:
                    l = mk('coll', stream, el, ty=gty)
                res.append((st, self.enum_of(dty, good, l)))
            else:
                # only the empty stream collects to success
                res.append((st, self.enum_of(dty, good, mk('arr'))))
            if errs:
                if nm == 'Option':
                    res.append((s2, self.enum_of(dty, 'None')))
                else:
                    res.append((s2, self.enum_of(dty, 'Err', self.joined(F, st, errs))))
            return res
        l, _ = self.collect_list(F, bb, st, itv)
        return [(st, mk('coll', l, ty=dty))]

    def f_count(self, F, bb, st, inst, args, t, sp):
        stream, star, outs = self.starred(F, bb, st, args[0])
        self.effects(st, outs)
        n = self.slen(stream)
        x, y = n, stream
        while y.op in ('filter', 'filtmap', 'takewhile', 'skipwhile', 'mapwhile', 'take', 'skip', 'map', 'enum', 'rev'):
            # no more elements than the source has
            y = y.a[0]
            z = self.slen(y)
            if z is not x and z is not n:
                self.it.constrain(st, n, z, -2 ** 63, 0)
            x = z
        return [(st, n)]

    def quant(op):
        def f(self, F, bb, st, inst, args, t, sp):
            it = self.it
            itv = args[0]
            cp = self.cell_of(st, itv) if itv.op == 'ref' else None
            if cp is not None:
                itv = self.getcell(st, cp)
            stream, star, outs = self.starred(F, bb, st, itv)
            r = []
            for s, x in outs:
                r.extend(it.call_value(F, bb, s, args[1], [x], None, None))
            self.effects(st, r)
            j = self.joined(F, st, r)
            if j is None:
                return [(st, TRUE if op == 'all' else FALSE)]
            return [(st, mk('bool', op, stream, j))]
        return f

    f_all = quant('all')
    f_any = quant('any')

    def iter_find(self, F, bb, st, inst, args, t, sp):
        it = self.it
        dty = self.dty(F, t, inst)
        itv = args[0]
        cp = self.cell_of(st, itv) if itv.op == 'ref' else None
        if cp is not None:
            itv = self.getcell(st, cp)
        itv = it.simp(st, itv)
        me = method(inst['d'])
        stream = self.at(itv) if itv.op == 'iter' else mk('ostream', itv)
        # identity of the found position: stream + the closure
        pos = mk('foundpos', stream, args[1], ty=it.p.find_ty(lambda k: k['k'] == 'uint' and k['n'] == 'usize'),
                 marks=it.curmarks())
        s = st.copy()
        out = []
        try:
            it.constrain(s, pos, self.slen(stream), -2 ** 130, -1)
            for s2, x in self.step(F, bb, s, stream, pos):
                a = x if me in ('position', 'rposition', 'find_map') else it.mkbox(x)
                for s3, r in it.call_value(F, bb, s2, args[1], [a], None, None):
                    if me == 'find_map':
                        out.append((s3, r))
                        continue
                    try:
                        it.assume(s3, r, True)
                    except Dead:
                        continue
                    v = pos if me in ('position', 'rposition') else x
                    out.append((s3, self.enum_of(dty, 'Some', v)))
        except Dead:
            pass
        s4 = st.copy()
        self.effects(s4, out)
        s4.facts[mk('bool', 'nofind', stream, args[1])] = ('iv', 1, 1)
        out.append((s4, self.enum_of(dty, 'None')))
        return out

    f_position = iter_find
    f_rposition = iter_find
    f_find_map = iter_find

    def f_fold(self, F, bb, st, inst, args, t, sp):
        it = self.it
        stream, star, outs = self.starred(F, bb, st, args[0])
        acc = args[1]
        dty = self.dty(F, t, inst)
        accp = mk('acc', stream, acc, args[2], ty=dty, marks=it.curmarks())
        r = []
        for s, x in outs:
            r.extend(it.call_value(F, bb, s, args[2], [accp, x], None, None))
        self.effects(st, r)
        j = self.joined(F, st, r)
        it.src.setdefault(accp, set()).update(x for x in (acc, j) if x is not None)
        return [(st, mk('fold', stream, acc, j or acc, accp, ty=dty))]

    def f_for_each(self, F, bb, st, inst, args, t, sp):
        it = self.it
        stream, star, outs = self.starred(F, bb, st, args[0])
        # closures with effects: havoc first, then evaluate under the havoc
        r = []
        for s, x in outs:
            r.extend(it.call_value(F, bb, s, args[1], [x], None, None))
        self.effects(st, r)
        stream, star, outs = self.starred(F, bb, st, args[0])
        r = []
        for s, x in outs:
            r.extend(it.call_value(F, bb, s, args[1], [x], None, None))
        self.effects(st, r)
        return [(st, UNIT)]

    # ------------------------------------------------------------ misc
    def f_unreachable_default_msg(self, F, bb, st, inst, args, t, sp):
        self.it.obligation(st, F, bb, 'panic:unreachable', False, '', sp)
        return []

    def f_max_level(self, F, bb, st, inst, args, t, sp):
        return [(st, self.it.opq('log_max_level', self.dty(F, t, inst)))]

    def f_loc(self, F, bb, st, inst, args, t, sp):
        return [(st, self.it.opq('log_loc', self.dty(F, t, inst)))]

    def f_log(self, F, bb, st, inst, args, t, sp):
        if 'private_api' not in inst['d']:
            return None
        self.it.emit(st, F, 'log', tuple(args), bb, sp)
        return [(st, UNIT)]

    def f_from(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        k = self.p.types[dty]
        if k['k'] in ('int', 'uint', 'float'):
            v = args[0]
            if k['k'] == 'float':
                return None
            return [(st, v)]
        if k['k'] == 'adt' and short(k['n']) in ('String', 'Vec'):
            return [(st, self.peel(st, args[0]))]
        return None

    def f_try_from(self, F, bb, st, inst, args, t, sp):
        it = self.it
        dty = self.dty(F, t, inst)
        okty = self.payload_ty(dty, 'Ok')
        if okty is None or self.p.types[okty]['k'] not in ('int', 'uint'):
            return None
        lo, hi = self.p.int_range(okty)
        v = args[0]
        out = []
        s = st.copy()
        try:
            it.meet_iv(s, v, lo, hi)
            out.append((s, self.enum_of(dty, 'Ok', v)))
        except Dead:
            pass
        a = it.iv(st, v)
        if a[0] < lo or a[1] > hi:
            out.append((st.copy(), self.enum_of(dty, 'Err', it.opq('tryerr', self.payload_ty(dty, 'Err')))))
        return out

    def f_saturating_add(self, F, bb, st, inst, args, t, sp):
        return None

    def checked(op):
        def f(self, F, bb, st, inst, args, t, sp):
            it = self.it
            dty = self.dty(F, t, inst)
            some = self.payload_ty(dty, 'Some')
            rg = self.p.int_range(some)
            r = it.add(args[0], args[1]) if op == 'add' else it.sub(args[0], args[1]) if op == 'sub' else mk('mul', *args)
            out = []
            for s, b in self.split_bool(st, mk('ovf', r, rg[0], rg[1])):
                out.append((s, self.enum_of(dty, 'None') if b else self.enum_of(dty, 'Some', r)))
            return out
        return f

    f_checked_add = checked('add')
    f_checked_sub = checked('sub')
    f_checked_mul = checked('mul')


def me_of(inst):
    return method(inst['d'])


IDENT = {'deref', 'as_ref', 'as_str', 'borrow', 'to_owned', 'to_vec', 'as_slice', 'into_string', 'as_bytes',
         'into_vec', 'into_boxed_str', 'as_mut_slice', 'as_deref_'}
