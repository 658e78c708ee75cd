"""Abstract interpreter over the MIR dump (no execution, no solver).

A flow-sensitive, partially path-sensitive dataflow analysis: states map memory cells to value
terms and terms to facts (intervals, variant sets, string (in)equalities, difference bounds).
Joins are field-wise; `alt` keeps which facts select which value; loop headers are stabilised
with `phi` terms, widening and purging of facts about values of earlier iterations.
"""
import sys
from terms import *
from prog import *

sys.setrecursionlimit(20000)
IMAX = 2 ** 63 - 1
MAXITER = 2 ** 31 - 2
UMAX = 2 ** 64 - 1
THRESH = [0, 1, 127, 255, 65535, 2 ** 31 - 1, 2 ** 32 - 1, IMAX, UMAX, 2 ** 128]
THRESH_LO = [1, 0, -2 ** 31, -2 ** 63, -2 ** 127]


class EngineError(Exception):
    pass


class Frame:
    __slots__ = ('inst', 'body', 'cfg', 'id', 'path', 'live')

    def __init__(self, inst, body, cfg, id_, path):
        self.inst = inst
        self.body = body
        self.cfg = cfg
        self.id = id_
        self.path = path


class Event:
    __slots__ = ('kind', 'fn', 'bb', 'span', 'data', 'facts', 'path')

    def __init__(self, kind, fn, bb, span, data, facts, path):
        self.kind = kind
        self.fn = fn
        self.bb = bb
        self.span = span
        self.data = data
        self.facts = facts
        self.path = path

    def __repr__(self):
        return '%s %s@%s %s' % (self.kind, self.fn, self.span, self.data)


class Interp:
    def __init__(self, prog, cut=None, maxstates=48):
        import models, panicky
        self.p = prog
        self.cut = cut or (lambda inst: False)
        self.models = panicky.PModels(self)
        self.events = []
        self.src = {}        # phi -> {source terms}
        self.active = []     # active loop ids
        self.under = {}      # loop id -> loop ids seen inside
        self.fids = {}
        self.maxstates = maxstates
        self.depth = 0
        self.cfgs = {}
        self.visits = 0
        self.unknown = {}    # unmodelled foreign callee -> count
        self.callstack = []
        self.fresh = 0
        self.log_events = True
        self.blocks_seen = set()
        self.cbound = {}

    # ================================================================ terms
    def variants(self, ty):
        return self.p.types[ty]['v']

    def is_enum(self, ty):
        k = self.p.types.get(ty) if ty is not None else None
        return bool(k) and k['k'] == 'adt' and k['ak'] == 'Enum'

    def is_int_ty(self, ty):
        k = self.p.types.get(ty) if ty is not None else None
        return bool(k) and k['k'] in ('int', 'uint', 'bool', 'char')

    def opq(self, name, ty=None, marks=None):
        if ty is not None:
            k = self.p.types[ty]
            if k['k'] == 'tuple' and not k['ts']:
                return UNIT
        return mk('opq', name, ty=ty, marks=marks)

    def curmarks(self):
        return frozenset(self.active)

    def ty_of(self, t):
        if t.ty is not None:
            return t.ty
        if t.op == 'adt':
            return t.a[0]
        if t.op in ('alt',):
            for _, x in t.a[0]:
                r = self.ty_of(x)
                if r is not None:
                    return r
        return None

    # struct / enum construction
    def adt(self, ty, variant, *fields):
        return mk('adt', ty, variant, *fields)

    def vname(self, t):
        """variant name of an adt term"""
        return self.p.types[t.a[0]]['v'][t.a[1]]['n']

    def expand(self, t, ty, variant=0):
        """lazy expansion of an opaque struct"""
        v = self.p.types[ty]['v'][variant]
        return self.adt(ty, variant, *[self.fld(t, variant, i, f[1]) for i, f in enumerate(v['f'])])

    def fld(self, t, variant, i, ty):
        if self.p.types[ty]['k'] == 'tuple' and not self.p.types[ty]['ts']:
            return UNIT
        return mk('fld', t, variant, i, ty=ty)

    def field(self, st, v, variant, i, ty):
        v = self.simp(st, v)
        if v.op == 'adt':
            if variant is None or v.a[1] == variant:
                if i < len(v.a) - 2:
                    return v.a[2 + i]
            return self.opq('badfield', ty)
        if v.op == 'tup':
            return v.a[i] if i < len(v.a) else self.opq('badtup', ty)
        if v.op == 'clos':
            return v.a[1 + i]
        if v.op == 'hbox':
            return v
        if v.op == 'alt':
            arms = [(c, x) for c, x in v.a[0]
                    if variant is None or x.op != 'adt' or x.a[1] == variant]
            if variant is not None:
                arms = [(c, x) for c, x in arms if x.op == 'adt' or self.may_variant(st, x, variant)]
            if arms:
                res = [(c, self.field(st, x, variant, i, ty)) for c, x in arms]
                if all(r[1] is res[0][1] for r in res):
                    return res[0][1]
                return mk('alt', tuple(res))
        return self.fld(v, variant or 0, i, ty)

    def deref(self, st, v, ty=None):
        v = self.simp(st, v)
        if v.op == 'box':
            return v.a[0]
        if v.op == 'ref':
            return self.read_path(st, v.a[0], v.a[1])
        if v.op == 'hbox':
            return st.mem.get(v.a[0], self.opq('uninit'))
        if v.op == 'alt':
            res = [(c, self.deref(st, x, ty)) for c, x in v.a[0]]
            if all(r[1] is res[0][1] for r in res):
                return res[0][1]
            return mk('alt', tuple(res))
        return mk('deref', v, ty=ty)

    def mkbox(self, t):
        if t.op == 'deref':
            return t.a[0]
        return mk('box', t)

    def simp(self, st, v):
        """drop the arms of an alt that contradict current facts"""
        while v.op == 'alt':
            arms = []
            for c, x in v.a[0]:
                if self.consistent(st, c):
                    arms.append((c, x))
            if len(arms) == len(v.a[0]):
                return v
            if not arms:
                return v
            if len(arms) == 1:
                v = arms[0][1]
                continue
            return mk('alt', tuple(arms))
        return v

    def consistent(self, st, conds):
        for t, f in conds:
            g = st.facts.get(t)
            if g is None:
                if t.op == 'int' or f[0] == 'iv':
                    lo, hi = self.iv(st, t, 2)
                    if f[0] == 'iv' and (hi < f[1] or lo > f[2]):
                        return False
                continue
            try:
                f_meet(g, f)
            except Dead:
                return False
        return True

    # ---------------------------------------------------------------- facts
    def varset(self, st, t):
        """possible variants of enum-valued term"""
        if t.op == 'adt':
            return frozenset([t.a[1]])
        f = st.facts.get(t)
        if f is not None and f[0] == 'var':
            return f[1]
        if t.op == 'alt':
            r = frozenset()
            for c, x in t.a[0]:
                if self.consistent(st, c):
                    r |= self.varset(st, x)
            return r
        ty = self.ty_of(t)
        if ty is not None and self.is_enum(ty):
            return frozenset(range(len(self.variants(ty))))
        return frozenset(range(64))

    def may_variant(self, st, t, v):
        return v in self.varset(st, t)

    def assume_var(self, st, t, vs):
        vs = frozenset(vs)
        cur = self.varset(st, t)
        n = cur & vs
        if not n:
            raise Dead()
        if t.op == 'adt':
            return
        if t.op == 'alt':
            arms = [(c, x) for c, x in t.a[0]
                    if self.consistent(st, c) and (self.varset(st, x) & vs)]
            if not arms:
                raise Dead()
            if len(arms) == 1:
                self.assume_conds(st, arms[0][0])
                self.assume_var(st, arms[0][1], vs)
            else:
                st.facts[t] = ('var', n)
                self.assume_common(st, arms)
            return
        if n != cur or st.facts.get(t) is None:
            st.facts[t] = ('var', n)

    def assume_common(self, st, arms):
        """facts that hold in every remaining arm"""
        common = None
        for c, _ in arms:
            d = dict(c)
            if common is None:
                common = d
            else:
                n = {}
                for k, f in common.items():
                    if k in d:
                        j = f_join(f, d[k])
                        if j is not None:
                            n[k] = j
                common = n
        if common:
            self.assume_conds(st, tuple(common.items()))

    def assume_conds(self, st, conds):
        for t, f in conds:
            if t.op == 'int':
                continue
            st.facts[t] = f_meet(st.facts.get(t), f)

    # ---- linear normal form and intervals
    def lin(self, t):
        if t.op == 'int':
            return (None, t.a[0])
        if t.op == 'add' and t.a[1].op == 'int':
            return (t.a[0], t.a[1].a[0])
        return (t, 0)

    def add(self, a, b):
        ba, ca = self.lin(a)
        bb, cb = self.lin(b)
        if ba is None and bb is None:
            return I(ca + cb)
        if ba is None:
            ba, bb = bb, ba
        c = ca + cb
        if bb is not None:
            if bb.id < ba.id:
                ba, bb = bb, ba
            ba = mk('sum', ba, bb)
        if c == 0:
            return ba
        return mk('add', ba, I(c))

    def sub(self, a, b):
        ba, ca = self.lin(a)
        bb, cb = self.lin(b)
        if bb is None:
            return self.add(a, I(-cb))
        if ba is bb:
            return I(ca - cb)
        if ba is None:
            r = mk('neg', bb)
        else:
            r = mk('diff', ba, bb)
        return self.add(r, I(ca - cb))

    def diffkey(self, A, B):
        """(canonical diff term, sign)"""
        if A.id < B.id:
            return mk('diff', A, B), 1
        return mk('diff', B, A), -1

    def diff_iv(self, st, A, B):
        """interval of A-B for base terms"""
        k, s = self.diffkey(A, B)
        f = st.facts.get(k)
        lo, hi = -2 ** 130, 2 ** 130
        if f is not None:
            lo, hi = f[1], f[2]
            if s < 0:
                lo, hi = -hi, -lo
        return lo, hi

    def iv(self, st, t, d=6):
        if t.op == 'int':
            return t.a[0], t.a[0]
        lo, hi = self.iv0(st, t, d)
        f = st.facts.get(t)
        if f is not None and f[0] == 'iv':
            lo = max(lo, f[1])
            hi = min(hi, f[2])
        return lo, hi

    def iv0(self, st, t, d):
        op = t.op
        r = None
        if t.ty is not None:
            r = self.p.int_range(t.ty)
        if d <= 0:
            return r or (-2 ** 130, 2 ** 130)
        if op == 'add' or op == 'sum':
            a, b = self.iv(st, t.a[0], d - 1), self.iv(st, t.a[1], d - 1)
            r2 = (a[0] + b[0], a[1] + b[1])
        elif op == 'neg':
            a = self.iv(st, t.a[0], d - 1)
            r2 = (-a[1], -a[0])
        elif op == 'diff':
            a, b = self.iv(st, t.a[0], d - 1), self.iv(st, t.a[1], d - 1)
            r2 = (a[0] - b[1], a[1] - b[0])
            dl, dh = self.diff_iv(st, t.a[0], t.a[1])
            r2 = (max(r2[0], dl), min(r2[1], dh))
        elif op == 'mul':
            a, b = self.iv(st, t.a[0], d - 1), self.iv(st, t.a[1], d - 1)
            ps = [x * y for x in a for y in b]
            r2 = (min(ps), max(ps))
        elif op == 'alt':
            lo = hi = None
            for c, x in t.a[0]:
                if not self.consistent(st, c):
                    continue
                a = self.iv_c(st, x, c, d - 1)
                lo = a[0] if lo is None else min(lo, a[0])
                hi = a[1] if hi is None else max(hi, a[1])
            r2 = (lo, hi) if lo is not None else (-2 ** 130, 2 ** 130)
        elif op == 'len':
            r2 = self.len_iv(st, t.a[0], d - 1)
        elif op == 'bool' or op in ('eq', 'lt', 'not', 'streq', 'contains', 'starts', 'ends', 'isvar', 'ovf'):
            r2 = (0, 1)
        elif op == 'widen':
            r2 = self.iv(st, t.a[0], d - 1)
        elif op in ('bBitAnd', 'bRem', 'bDiv', 'bShr') and len(t.a) == 2:
            a, b = self.iv(st, t.a[0], d - 1), self.iv(st, t.a[1], d - 1)
            r2 = None
            if op == 'bBitAnd' and (b[0] >= 0 or a[0] >= 0):
                r2 = (0, min(x[1] for x in (a, b) if x[0] >= 0))
            elif op == 'bRem' and b[0] > 0:
                r2 = (0 if a[0] >= 0 else 1 - b[1], min(a[1], b[1] - 1) if a[0] >= 0 else b[1] - 1)
            elif op == 'bDiv' and b[0] > 0 and a[0] >= 0:
                r2 = (a[0] // b[1], a[1] // b[0])
            elif op == 'bShr' and a[0] >= 0 and 0 <= b[0] <= b[1] < 128:
                r2 = (a[0] >> b[1], a[1] >> b[0])
        elif op in ('discrcast', 'discr'):
            ds = [int(v['d']) if v['d'] is not None else i for i, v in enumerate(self.variants(t.a[1]))]
            vs = self.varset(st, t.a[0])
            ds = [x for i, x in enumerate(ds) if i in vs] or ds
            r2 = (min(ds), max(ds)) if ds and max(ds) < 2 ** 31 else None
        else:
            r2 = None
        if r2 is None:
            return r or (-2 ** 130, 2 ** 130)
        if r is not None:
            r2 = (max(r[0], r2[0]), min(r[1], r2[1]))
        return r2

    def iv_c(self, st, x, conds, d):
        """interval of x additionally under conds"""
        lo, hi = self.iv(st, x, d)
        for t, f in conds:
            if t is x and f[0] == 'iv':
                lo = max(lo, f[1])
                hi = min(hi, f[2])
        return lo, hi

    def has(self, st, t):
        f = st.facts.get(t)
        return f is not None and f == ('iv', 1, 1)

    def len_iv(self, st, x, d):
        """bounds of the length of a list / string / stream"""
        op = x.op
        if op in ('take', 'skip', 'filter', 'takewhile', 'skipwhile', 'filtmap', 'mapwhile', 'stepby') and d > 0 and len(x.a) > 1 \
                and x.a[0].op != 'str':
            a = self.iv(st, self.models.slen(x.a[0]), d - 1)
            hi = max(a[1], 0)
            lo = 0
            if op in ('take', 'skip'):
                n = self.iv(st, x.a[1], d - 1)
                if op == 'take':
                    lo, hi = min(a[0], n[0]), min(hi, n[1])
                else:
                    lo, hi = a[0] - n[1], max(0, hi - n[0])
            elif op == 'stepby':
                lo = min(a[0], 1)
            return max(lo, 0), hi
        if op == 'zip' and d > 0:
            a, b = self.iv(st, self.models.slen(x.a[0]), d - 1), self.iv(st, self.models.slen(x.a[1]), d - 1)
            return max(0, min(a[0], b[0])), max(0, min(a[1], b[1]))
        if op == 'chunks' and d > 0:
            a = self.iv(st, self.len_(x.a[0]), d - 1)
            return (min(1, a[0]) if x.a[2] in ('chunks', 'rchunks') else 0), a[1]
        if op in ('split', 'rsplit'):
            # split(s, pat): at least one piece
            s, pat = x.a[0], x.a[1]
            lo = 1
            if self.has(st, mk('contains', s, pat)):
                lo = 2
            f = st.facts.get(mk('contains', s, pat))
            hi = IMAX
            if f == ('iv', 0, 0):
                hi = 1
            return lo, hi
        if op in ('splitn', 'rsplitn'):
            s, n, pat = x.a
            lo = 1
            nlo, nhi = self.iv(st, n, d)
            if nlo >= 2 and self.has(st, mk('contains', s, pat)):
                lo = 2
            f = st.facts.get(mk('contains', s, pat))
            if f == ('iv', 0, 0):
                nhi = 1
            return min(lo, nlo), nhi
        if op == 'alt':
            lo = hi = None
            for c, y in x.a[0]:
                if not self.consistent(st, c):
                    continue
                a = self.iv_c(st, self.len_(y), c, d - 1)
                b, k = self.lin(self.len_(y))
                if k and b is not None:
                    a2 = self.iv_c(st, b, c, d - 1)
                    a = max(a[0], a2[0] + k), min(a[1], a2[1] + k)
                lo = a[0] if lo is None else min(lo, a[0])
                hi = a[1] if hi is None else max(hi, a[1])
            if lo is not None:
                return lo, hi
        if op == 'vfilt':
            return 0, self.iv(st, self.len_(x.a[0]), d)[1]
        if op in ('disp', 'hex', 'dbg'):
            return 0, IMAX
        if op == 'cat':
            lo = sum(self.iv(st, self.len_(y), d - 1)[0] for y in x.a)
            return min(lo, IMAX), IMAX
        if op == 'opq' or op == 'fld' or op == 'deref' or op == 'item':
            pass
        # strings known to start with / equal something
        f = st.facts.get(x)
        if f is not None and f[0] == 'eq':
            return len(f[1].encode()), len(f[1].encode())
        lo = 0
        if f is not None and f[0] == 'ne' and '' in f[1]:
            lo = 1
        for w in self.affix(st, x):
            lo = max(lo, w)
        return lo, IMAX

    def affix(self, st, x):
        """lower bounds of len(x) from known prefixes, suffixes and contents"""
        r = []
        pre, suf = [''], ['']
        for k, f in st.facts.items():
            if k.op in ('starts', 'ends', 'contains') and k.a[0] is x and f == ('iv', 1, 1) and k.a[1].op == 'str':
                w = k.a[1].a[0]
                r.append(len(w.encode()))
                if k.op == 'starts':
                    pre.append(w)
                elif k.op == 'ends':
                    suf.append(w)
        for p in pre:
            for q in suf:
                # shortest string with prefix p and suffix q
                o = min(len(p), len(q))
                while o > 0 and p[len(p) - o:] != q[:o]:
                    o -= 1
                if len(q) <= len(p) and p.endswith(q) or len(p) <= len(q) and q.startswith(p):
                    continue
                r.append(len((p + q[o:]).encode()))
        return r

    def len_(self, x):
        """symbolic length"""
        op = x.op
        if op == 'arr':
            return I(len(x.a))
        if op == 'str':
            return I(len(x.a[0].encode()))
        if op == 'vpush':
            return self.add(self.len_(x.a[0]), I(1))
        if op == 'vset':
            return self.len_(x.a[0])
        if op in ('vmap', 'enumd', 'rev', 'sorted'):
            return self.len_(x.a[0])
        if op == 'vcat':
            return self.add(self.len_(x.a[0]), self.len_(x.a[1]))
        if op == 'slice':
            frm, to = x.a[1], x.a[2]
            e = self.len_(x.a[0]) if to is None else to
            return self.sub(e, frm)
        if op == 'vremove':
            return self.add(self.len_(x.a[0]), I(-1))
        if op == 'rep':
            return x.a[1]
        return mk('len', x)

    def lt_iv(self, st, a, b, sums=True):
        """interval of a-b"""
        ba, ca = self.lin(a)
        bb, cb = self.lin(b)
        if ba is bb:
            return ca - cb, ca - cb
        alo, ahi = self.iv(st, a)
        blo, bhi = self.iv(st, b)
        lo, hi = alo - bhi, ahi - blo
        if ba is not None and bb is not None:
            dl, dh = self.diff_iv(st, ba, bb)
            lo = max(lo, dl + ca - cb)
            hi = min(hi, dh + ca - cb)
            # one step of closure through a common third term
            for k, f in st.facts.items():
                if k.op == 'diff' and f[0] == 'iv':
                    x, y = k.a
                    for (p, q, l, h) in ((x, y, f[1], f[2]), (y, x, -f[2], -f[1])):
                        if p is ba and q is not bb:
                            # a - b = (ba - q) + (q - bb)
                            el, eh = self.diff_iv(st, q, bb)
                            qi = self.iv(st, q, 2)
                            bi = self.iv(st, bb, 2)
                            el = max(el, qi[0] - bi[1])
                            eh = min(eh, qi[1] - bi[0])
                            lo = max(lo, l + el + ca - cb)
                            hi = min(hi, h + eh + ca - cb)
        if ba is not None and bb is not None:
            for p, q, g in ((ba, bb, 1), (bb, ba, -1)):
                if p.op == 'sum' and q in p.a:
                    l, h = self.iv(st, p.a[1] if p.a[0] is q else p.a[0])
                    if g < 0:
                        l, h = -h, -l
                    lo = max(lo, l + ca - cb)
                    hi = min(hi, h + ca - cb)
        if hi > 0 and sums and ba is not None and bb is not None and ba.op == 'sum':
            # (x + y) - b = y - (b - x)
            for x, y in (ba.a, ba.a[::-1]):
                l, h = self.lt_iv(st, y, self.sub(bb, x), False)
                lo = max(lo, l + ca - cb)
                hi = min(hi, h + ca - cb)
        return lo, hi

    def prove_lt(self, st, a, b):
        return self.prove_max(st, a, b, -1)

    def prove_le(self, st, a, b):
        return self.prove_max(st, a, b, 0)

    def prove_max(self, st, a, b, m, d=3):
        """a - b <= m, by cases over values joined from several paths"""
        if self.lt_iv(st, a, b)[1] <= m:
            return True
        if d <= 0:
            return False
        for i, x in enumerate((a, b)):
            base, k = self.lin(x)
            if base is not None and base.op == 'alt':
                for c, y in base.a[0]:
                    if not self.consistent(st, c):
                        continue
                    s = State(st.mem, dict(st.facts))
                    try:
                        self.assume_conds(s, c)
                    except Dead:
                        continue
                    z = self.add(y, I(k))
                    if not self.prove_max(s, *((z, b) if i == 0 else (a, z)), m, d - 1):
                        return False
                return True
        return False

    def iv_deep(self, st, t):
        """interval using difference facts against bounded bases"""
        lo, hi = self.iv(st, t)
        b, c = self.lin(t)
        if b is not None:
            for k, f in st.facts.items():
                if k.op == 'diff' and f[0] == 'iv' and (k.a[0] is b or k.a[1] is b):
                    if k.a[0] is b:
                        o, l, h = k.a[1], f[1], f[2]
                    else:
                        o, l, h = k.a[0], -f[2], -f[1]
                    oi = self.iv(st, o)
                    lo = max(lo, oi[0] + l + c)
                    hi = min(hi, oi[1] + h + c)
        return lo, hi

    def within(self, st, t, lo, hi, d=4):
        """lo <= t <= hi, by cases over values joined from several paths"""
        l, h = self.iv_deep(st, t)
        if h > hi and hi >= 2 ** 63 - 1 and hasattr(self.models, 'mem_iv'):
            h = self.models.mem_iv(st, t)[1]
        if l >= lo and h <= hi:
            return True
        if d <= 0:
            return False
        b, k = self.lin(t)
        if b is None:
            return False
        xs = [b] if b.op == 'alt' else [x for x in b.a if isinstance(x, T)] if b.op in ('sum', 'diff') else []
        for i, x in enumerate(xs):
            y, k2 = self.lin(x)
            if y is None or y.op != 'alt':
                continue
            for c, z in y.a[0]:
                if not self.consistent(st, c):
                    continue
                s = State(st.mem, dict(st.facts))
                try:
                    self.assume_conds(s, c)
                except Dead:
                    continue
                z = self.add(z, I(k2))
                if x is not b:
                    o = xs[1 - i]
                    z = self.add(z, o) if b.op == 'sum' else self.sub(z, o) if i == 0 else self.sub(o, z)
                if not self.within(s, self.add(z, I(k)), lo, hi, d - 1):
                    return False
            return True
        return False

    def constrain(self, st, a, b, lo, hi):
        """assume lo <= a-b <= hi"""
        ba, ca = self.lin(a)
        bb, cb = self.lin(b)
        l0, h0 = self.lt_iv(st, a, b)
        if l0 > hi or h0 < lo:
            raise Dead()
        if ba is bb:
            return
        if ba is None or bb is None:
            if ba is None:
                # ca - (bb+cb) in [lo,hi]
                self.meet_iv(st, bb, ca - cb - hi, ca - cb - lo)
            else:
                self.meet_iv(st, ba, lo - ca + cb, hi - ca + cb)
            return
        # bounds
        alo, ahi = self.iv(st, ba)
        blo, bhi = self.iv(st, bb)
        l, h = lo - ca + cb, hi - ca + cb
        self.meet_iv(st, ba, blo + l, bhi + h)
        alo, ahi = self.iv(st, ba)
        self.meet_iv(st, bb, alo - h, ahi - l)
        k, s = self.diffkey(ba, bb)
        if s < 0:
            l, h = -h, -l
        st.facts[k] = f_meet(st.facts.get(k), ('iv', l, h))

    def meet_iv(self, st, t, lo, hi):
        l, h = self.iv(st, t)
        lo2, hi2 = max(l, lo), min(h, hi)
        if lo2 > hi2:
            raise Dead()
        if t.op == 'int':
            return
        if (lo2, hi2) != (l, h):
            st.facts[t] = ('iv', lo2, hi2)
            if t.op == 'add' and t.a[1].op == 'int':
                self.meet_iv(st, t.a[0], lo2 - t.a[1].a[0], hi2 - t.a[1].a[0])
            self.on_meet(st, t, lo2, hi2)

    def on_meet(self, st, t, lo, hi):
        if t.op == 'len' and hi == 0:
            # empty string
            pass
        if t.op == 'alt':
            arms = [(c, x) for c, x in t.a[0] if self.consistent(st, c)]
            ok = []
            for c, x in arms:
                a = self.iv_c(st, x, c, 4)
                if a[1] >= lo and a[0] <= hi:
                    ok.append((c, x))
            if not ok:
                raise Dead()
            if len(ok) == 1:
                self.assume_conds(st, ok[0][0])
                if ok[0][1].op != 'int':
                    self.meet_iv(st, ok[0][1], lo, hi)
            else:
                self.assume_common(st, ok)
        if t.op == 'len' and t.a[0].op == 'alt':
            arms = [(c, x) for c, x in t.a[0].a[0] if self.consistent(st, c)]
            ok = []
            for c, x in arms:
                a = self.iv(st, self.len_(x), 4)
                if a[1] >= lo and a[0] <= hi:
                    ok.append((c, x))
            if not ok:
                raise Dead()
            if len(ok) == 1:
                self.assume_conds(st, ok[0][0])

    # ---- boolean terms
    def b_not(self, c):
        if c.op == 'int':
            return I(1 - c.a[0])
        if c.op == 'not':
            return c.a[0]
        return mk('not', c)

    def b_eq(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'int' and b.op == 'int':
            return I(a.a[0] == b.a[0])
        if a.op == 'int' or (b.op != 'int' and b.id < a.id):
            a, b = b, a
        return mk('eq', a, b)

    def b_lt(self, a, b):
        ba, ca = self.lin(a)
        bb, cb = self.lin(b)
        if ba is bb:
            return I(ca < cb)
        return mk('lt', a, b)

    def truth(self, st, c):
        """1 / 0 / None"""
        if c.op == 'int':
            return 1 if c.a[0] else 0
        f = st.facts.get(c)
        if f is not None and f[0] == 'iv' and f[1] == f[2]:
            return f[1]
        try:
            s = State({}, dict(st.facts))
            self.assume(s, c, True)
        except Dead:
            return 0
        try:
            s = State({}, dict(st.facts))
            self.assume(s, c, False)
        except Dead:
            return 1
        return None

    def assume(self, st, c, v):
        """refine st by (c == v); raises Dead"""
        op = c.op
        if op == 'int':
            if bool(c.a[0]) != v:
                raise Dead()
            return
        if op == 'not':
            return self.assume(st, c.a[0], not v)
        if op == 'eq':
            a, b = c.a
            if b.op == 'int' and self.boolish(a) and b.a[0] in (0, 1):
                return self.assume(st, a, (b.a[0] == 1) == v)
            if v:
                f = st.facts.get(c)
                if f is not None and f[0] == 'iv' and f[2] == 0:
                    raise Dead()
                self.constrain(st, a, b, 0, 0)
            else:
                lo, hi = self.lt_iv(st, a, b)
                if lo == hi == 0:
                    raise Dead()
                if lo == 0:
                    self.constrain(st, a, b, 1, hi)
                elif hi == 0:
                    self.constrain(st, a, b, lo, -1)
                else:
                    st.facts[c] = f_meet(st.facts.get(c), ('iv', 0, 0))
            return
        if op == 'lt':
            a, b = c.a
            if v:
                self.constrain(st, a, b, -2 ** 130, -1)
            else:
                self.constrain(st, a, b, 0, 2 ** 130)
            return
        if op == 'and':
            if v:
                self.assume(st, c.a[0], True)
                self.assume(st, c.a[1], True)
            else:
                t0, t1 = self.truth(st, c.a[0]), self.truth(st, c.a[1])
                if t0 == 1 and t1 == 1:
                    raise Dead()
                if t0 == 1:
                    self.assume(st, c.a[1], False)
                elif t1 == 1:
                    self.assume(st, c.a[0], False)
            return
        if op == 'or':
            if not v:
                self.assume(st, c.a[0], False)
                self.assume(st, c.a[1], False)
            else:
                t0, t1 = self.truth(st, c.a[0]), self.truth(st, c.a[1])
                if t0 == 0 and t1 == 0:
                    raise Dead()
                if t0 == 0:
                    self.assume(st, c.a[1], True)
                elif t1 == 0:
                    self.assume(st, c.a[0], True)
            return
        if op == 'isvar':
            allv = self.varset(st, c.a[0])
            vs = frozenset(c.a[1])
            self.assume_var(st, c.a[0], vs if v else (allv - vs))
            return
        if op == 'streq':
            a, b = c.a
            if b.op == 'str':
                self.assume_str(st, a, b.a[0], v)
                return
        if op == 'ovf':
            t, lo, hi = c.a
            if v:
                if self.within(st, t, lo, hi):
                    raise Dead()
            else:
                self.meet_iv(st, t, lo, hi)
                # also refine the base
                b, k = self.lin(t)
                if b is not None and b is not t:
                    self.meet_iv(st, b, lo - k, hi - k)
            return
        if op == 'alt':
            arms = []
            for cc, x in c.a[0]:
                if not self.consistent(st, cc):
                    continue
                s = State({}, dict(st.facts))
                try:
                    self.assume_conds(s, cc)
                    self.assume(s, x, v)
                except Dead:
                    continue
                arms.append((cc, x, s))
            if not arms:
                raise Dead()
            if len(arms) == 1:
                st.facts.update(arms[0][2].facts)
            else:
                # join of the refined fact sets
                f = arms[0][2].facts
                for _, _, s in arms[1:]:
                    f = join_facts(f, s.facts)
                st.facts.update(f)
            return
        st.facts[c] = f_meet(st.facts.get(c), ('iv', 1, 1) if v else ('iv', 0, 0))
        if v and op in ('starts', 'ends', 'contains') and c.a[1].op == 'str':
            x = c.a[0]
            if x.op == 'str':
                return
            self.meet_iv(st, self.len_(x), max(self.affix(st, x) or [0]), IMAX)

    def boolish(self, t):
        if t.op in ('eq', 'lt', 'not', 'streq', 'contains', 'starts', 'ends', 'isvar', 'and', 'or', 'ovf', 'bool'):
            return True
        ty = self.ty_of(t)
        if ty is not None and self.p.types[ty]['k'] == 'bool':
            return True
        if t.op == 'alt':
            return all(self.boolish(x) or (x.op == 'int' and x.a[0] in (0, 1)) for _, x in t.a[0])
        return False

    def assume_str(self, st, a, s, v):
        a0 = a
        if a.op == 'str':
            if (a.a[0] == s) != v:
                raise Dead()
            return
        if a.op == 'alt':
            arms = []
            for cc, x in a.a[0]:
                if not self.consistent(st, cc):
                    continue
                s2 = State({}, dict(st.facts))
                try:
                    self.assume_conds(s2, cc)
                    self.assume_str(s2, x, s, v)
                except Dead:
                    continue
                arms.append(s2)
            if not arms:
                raise Dead()
            f = arms[0].facts
            for s2 in arms[1:]:
                f = join_facts(f, s2.facts)
            st.facts.update(f)
            return
        f = ('eq', s) if v else ('ne', frozenset([s]))
        if v and a.op in ('lower', 'upper') and s != (s.lower() if a.op == 'lower' else s.upper()):
            raise Dead()
        if v and a.op == 'trim' and s != s.strip():
            raise Dead()
        st.facts[a] = f_meet(st.facts.get(a), f)
        L = self.len_(a)
        n = len(s.encode())
        if v:
            self.meet_iv(st, L, n, n)
        elif s == '':
            self.meet_iv(st, L, 1, IMAX)

    def b_streq(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'str' and b.op == 'str':
            return I(a.a[0] == b.a[0])
        if a.op == 'str' or (b.op != 'str' and b.id < a.id):
            a, b = b, a
        return mk('streq', a, b)

    # ================================================================ memory
    def read_cell(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            v = mk('opq', 'uninit:%s' % (cell,))
        return v

    def read_path(self, st, cell, proj):
        v = self.read_cell(st, cell)
        return self.apply_proj(st, v, proj)

    def apply_proj(self, st, v, proj):
        variant = None
        for e in proj:
            k = e[0]
            if k == 'f':
                v = self.field(st, v, variant, e[1], e[2])
                variant = None
            elif k == 'd':
                variant = e[1]
            elif k == 'i':
                v = self.item(st, v, e[1], e[2])
            elif k == '*':
                v = self.deref(st, v, e[1])
        return v

    def item(self, st, v, idx, ty=None):
        v = self.simp(st, v)
        if v.op == 'arr' and idx.op == 'int' and 0 <= idx.a[0] < len(v.a):
            return v.a[idx.a[0]]
        if v.op == 'slice':
            return self.item(st, v.a[0], self.add(v.a[1], idx), ty)
        if v.op == 'vpush' and idx is self.len_(v.a[0]):
            return v.a[1]
        if v.op == 'alt':
            res = [(c, self.item(st, x, idx, ty)) for c, x in v.a[0]]
            if all(r[1] is res[0][1] for r in res):
                return res[0][1]
            return mk('alt', tuple(res))
        if v.op == 'vmap':
            return self.models.map_item(st, v, idx)
        if v.op == 'rep':
            return v.a[0]
        if v.op == 'bytes_' and idx.op == 'int':
            return I(v.a[0][idx.a[0]])
        if v.op == 'str' and idx.op == 'int' and v.a[0].isascii() and idx.a[0] < len(v.a[0]):
            return I(ord(v.a[0][idx.a[0]]))
        return self.item_norm(v, idx, ty)

    def item_norm(self, v, idx, ty):
        """element of a stream; borrowed strings for the string splitters"""
        while v.op in ('own',):
            v = v.a[0]
        if v.op in ('split', 'splitn', 'splitws', 'lines'):
            return mk('box', mk('item', v, idx))
        return mk('item', v, idx, ty=ty)

    def write_path(self, st, F, cell, proj, val):
        if not proj:
            st.mem[cell] = val
            return
        cur = self.read_cell(st, cell)
        # writes through a reference re-root
        v = cur
        variant = None
        for n, e in enumerate(proj):
            if e[0] == '*':
                v = self.simp(st, v)
                if v.op == 'ref':
                    return self.write_path(st, F, v.a[0], v.a[1] + tuple(proj[n + 1:]), val)
                if v.op == 'hbox':
                    return self.write_path(st, F, v.a[0], tuple(proj[n + 1:]), val)
                if v.op == 'alt' and all(x.op == 'ref' for _, x in v.a[0]):
                    for c, x in v.a[0]:
                        old = self.read_path(st, x.a[0], x.a[1] + tuple(proj[n + 1:]))
                        nv = old if old is val else mk('alt', ((c, val), ((), old)))
                        self.write_path(st, F, x.a[0], x.a[1] + tuple(proj[n + 1:]), nv)
                    return
                self.emit(st, F, 'wildwrite', (v, val))
                return
            elif e[0] == 'f':
                v = self.field(st, v, variant, e[1], e[2])
                variant = None
            elif e[0] == 'd':
                variant = e[1]
            elif e[0] == 'i':
                v = self.item(st, v, e[1], e[2])
        st.mem[cell] = self.update(st, cur, list(proj), val, self.cell_ty(F, cell))

    def cell_ty(self, F, cell):
        if F is not None and cell[0] == F.id:
            return F.body['locals'][cell[1]]
        return None

    def update(self, st, v, proj, val, ty=None, variant=None):
        if not proj:
            return val
        e = proj[0]
        v = self.simp(st, v)
        if e[0] == 'd':
            return self.update(st, v, proj[1:], val, ty, e[1])
        if e[0] == 'f':
            if v.op == 'tup':
                a = list(v.a)
                a[e[1]] = self.update(st, a[e[1]], proj[1:], val, e[2])
                return mk('tup', *a)
            if v.op == 'clos':
                a = list(v.a)
                a[1 + e[1]] = self.update(st, a[1 + e[1]], proj[1:], val, e[2])
                return mk('clos', *a)
            if v.op == 'opq' and v.a[0] == 'uninit':
                # the MaybeUninit / ManuallyDrop wrappers of a fresh allocation
                return self.update(st, v, proj[1:], val, e[2])
            if v.op != 'adt':
                t = self.ty_of(v)
                if t is None or self.p.types[t]['k'] != 'adt':
                    t = ty
                if t is None and v.op == 'alt':
                    pass
                if v.op == 'alt' and all(x.op == 'adt' for _, x in v.a[0]):
                    return mk('alt', tuple((c, self.update(st, x, proj, val, ty, variant)) for c, x in v.a[0]))
                if t is None or self.p.types[t]['k'] != 'adt':
                    k = self.p.types[t]['k'] if t is not None else None
                    if k == 'tuple':
                        ts = self.p.types[t]['ts']
                        a = [self.fld(v, 0, i, x) for i, x in enumerate(ts)]
                        a[e[1]] = self.update(st, a[e[1]], proj[1:], val, e[2])
                        return mk('tup', *a)
                    return self.opq('upd%d' % v.id)
                v = self.expand(v, t, variant or 0)
            if e[1] + 2 >= len(v.a):
                return self.opq('upd%d' % v.id)
            a = list(v.a)
            a[2 + e[1]] = self.update(st, a[2 + e[1]], proj[1:], val, e[2])
            return mk('adt', *a)
        if e[0] == 'i':
            if v.op == 'arr' and e[1].op == 'int' and 0 <= e[1].a[0] < len(v.a):
                a = list(v.a)
                a[e[1].a[0]] = self.update(st, a[e[1].a[0]], proj[1:], val, e[2])
                return mk('arr', *a)
            el = self.item(st, v, e[1], e[2])
            return mk('vset', v, e[1], self.update(st, el, proj[1:], val, e[2]))
        return self.opq('upd%d' % v.id)

    # ---- MIR places
    def place_root(self, st, F, place):
        """resolve a MIR place to (cell, proj) following references; or (None, value)"""
        cell = (F.id, place[0])
        proj = ()
        ty = F.body['locals'][place[0]]
        return cell, self.conv_proj(st, F, place[1], ty)

    def conv_proj(self, st, F, proj, ty):
        out = []
        for e in proj:
            if e == '*':
                k = self.p.types.get(ty)
                ty = k['e'] if k and 'e' in k else None
                out.append(('*', ty))
            elif e[0] == 'f':
                out.append(('f', e[1], e[2]))
                ty = e[2]
            elif e[0] == 'd':
                out.append(('d', e[1]))
            elif e[0] == 'i':
                k = self.p.types.get(ty)
                ty = k['e'] if k and 'e' in k else None
                out.append(('i', self.read_cell(st, (F.id, e[1])), ty))
            elif e[0] == 'ci':
                k = self.p.types.get(ty)
                ty = k['e'] if k and 'e' in k else None
                if e[3]:
                    base = self.apply_proj(st, self.read_cell(st, (F.id, -1)), ()) if False else None
                    out.append(('ie', e[1], ty))
                else:
                    out.append(('i', I(e[1]), ty))
            elif e[0] == 'oc':
                ty = e[1]
            elif e[0] == 'ss':
                out.append(('ss', e[1], e[2], e[3]))
        return tuple(out)

    def read_place(self, st, F, place):
        v = self.read_cell(st, (F.id, place[0]))
        if not place[1]:
            return v
        variant = None
        ty = F.body['locals'][place[0]]
        for e in self.conv_proj(st, F, place[1], ty):
            k = e[0]
            if k == 'f':
                v = self.field(st, v, variant, e[1], e[2])
                variant = None
            elif k == 'd':
                variant = e[1]
            elif k == 'i':
                v = self.item(st, v, e[1], e[2])
            elif k == 'ie':
                v = self.item(st, v, self.sub(self.len_(v), I(e[1])), e[2])
            elif k == 'ss':
                to = self.sub(self.len_(v), I(e[2])) if e[3] else I(e[2])
                w = self.simp(st, v)
                if w.op == 'arr' and to.op == 'int' and 0 <= e[1] <= to.a[0] <= len(w.a):
                    v = mk('arr', *w.a[e[1]:to.a[0]])
                else:
                    v = mk('slice', v, I(e[1]), to)
            elif k == '*':
                v = self.deref(st, v, e[1])
        return v

    def ref_place(self, st, F, place):
        """a mutable reference to the place"""
        cell = (F.id, place[0])
        proj = self.conv_proj(st, F, place[1], F.body['locals'][place[0]])
        # re-root at the last dereference
        v = self.read_cell(st, cell)
        root, rp = cell, ()
        variant = None
        for e in proj:
            if e[0] == '*':
                v = self.simp(st, v)
                if v.op == 'ref':
                    root, rp = v.a[0], v.a[1]
                    v = self.read_path(st, root, rp)
                elif v.op == 'hbox':
                    root, rp = v.a[0], ()
                    v = self.read_cell(st, root)
                else:
                    # reference into opaque memory: a fresh heap cell
                    nv = self.deref(st, v, e[1])
                    c = ('h', 'deref:%d' % v.id)
                    st.mem.setdefault(c, nv)
                    root, rp = c, ()
                    v = st.mem[c]
                variant = None
            else:
                if e[0] == 'ie':
                    e = ('i', self.sub(self.len_(v), I(e[1])), e[2])
                rp = rp + (e,)
                if e[0] == 'f':
                    v = self.field(st, v, variant, e[1], e[2])
                    variant = None
                elif e[0] == 'd':
                    variant = e[1]
                elif e[0] == 'i':
                    v = self.item(st, v, e[1], e[2])
        return mk('ref', root, rp)

    # ---- constants
    def const(self, k):
        ty = k['t']
        T_ = self.p.types[ty]
        if k.get('z'):
            if T_['k'] == 'fndef':
                return mk('fn', ty)
            if T_['k'] == 'tuple':
                return mk('tup', *[self.const({'t': x, 'z': 1}) for x in T_['ts']])
            if T_['k'] == 'closure':
                return mk('clos', ty)
            if T_['k'] == 'adt' and len(T_['v']) == 1:
                return self.adt(ty, 0, *[self.const({'t': f[1], 'z': 1}) for f in T_['v'][0]['f']])
            if T_['k'] == 'array':
                return mk('arr')
            return self.opq('zst', ty)
        if 'a' in k:
            return self.decode(ty, bytes(x or 0 for x in k['a']['b']), {o: a for o, a in k['a']['p']})
        return self.opq('const:%s' % (k.get('o') or k.get('s') or ''), ty)

    def frozen(self, ty):
        """no part of a value of the type can change behind a shared reference"""
        T_ = self.p.types[ty]
        k = T_['k']
        if k in ('uint', 'int', 'bool', 'char', 'float', 'str', 'never', 'fnptr', 'fndef'):
            return True
        if k in ('ref', 'array', 'slice'):
            return self.frozen(T_['e'])
        if k == 'tuple':
            return all(self.frozen(x) for x in T_['ts'])
        if k == 'adt' and (T_.get('local') or T_['ak'] == 'Enum'):
            return all(self.frozen(f[1]) for v in T_['v'] for f in v['f'])
        return False

    def decode(self, ty, b, ptrs):
        T_ = self.p.types[ty]
        k = T_['k']
        if k in ('closure', 'fndef') and not ptrs and not b:
            return mk('clos' if k == 'closure' else 'fn', ty)
        if k in ('uint', 'bool', 'char'):
            return I(int.from_bytes(b, 'little'))
        if k == 'int':
            return I(int.from_bytes(b, 'little', signed=True))
        if k == 'float':
            import struct
            return mk('flt', struct.unpack('<f' if len(b) == 4 else '<d', b)[0])
        if k in ('ref', 'ptr'):
            e = T_['e']
            ek = self.p.types[e]['k']
            if 0 in ptrs:
                al = self.p.allocs.get(ptrs[0])
                off = int.from_bytes(b[:8], 'little')
                if al is None or 'b' not in al or 'static' in al and not self.frozen(e):
                    return mk('box', self.opq('alloc%s' % ptrs[0], e))
                data = bytes(x or 0 for x in al['b'])
                pp = {o: a for o, a in al['p']}
                if ek == 'str':
                    n = int.from_bytes(b[8:16], 'little')
                    return mk('box', S(data[off:off + n].decode('utf8', 'replace')))
                if ek == 'slice':
                    n = int.from_bytes(b[8:16], 'little')
                    et = self.p.types[e]['e']
                    sz = self.size_of(et)
                    if sz is None:
                        return mk('box', self.opq('alloc%s' % ptrs[0], e))
                    return mk('box', self.decode_arr(et, n, data[off:], pp, sz, off))
                sub = {o - off: a for o, a in pp.items() if o >= off}
                return mk('box', self.decode(e, data[off:], sub))
            return mk('box', self.opq('ptr', e)) if ek not in ('str', 'slice') else \
                mk('box', S('') if ek == 'str' else mk('arr'))
        if k == 'array':
            n = T_['n']
            et = T_['e']
            sz = self.size_of(et)
            if sz is None or n is None:
                return self.opq('arr:%s' % b.hex(), ty)
            return self.decode_arr(et, int(n), b, ptrs, sz, 0)
        if k == 'tuple' and not T_['ts']:
            return UNIT
        if k == 'adt' and not ptrs and len(b) in (4, 16) and T_['n'].endswith('::Ipv%dAddr' % (4 if len(b) == 4 else 6)):
            import ipaddress
            return mk('opq', 'ip!' + str(ipaddress.ip_address(bytes(b))), ty=ty)
        r = self.decode_lay(ty, T_, b, ptrs)
        if r is not None:
            return r
        if k == 'adt':
            if T_['ak'] == 'Enum' and all(not v['f'] for v in T_['v']):
                d = int.from_bytes(b, 'little')
                for i, v in enumerate(T_['v']):
                    if v['d'] is None and i == d or v['d'] is not None and (int(v['d']) - d) % (1 << 8 * max(1, len(b))) == 0:
                        return self.adt(ty, i)
            if T_['ak'] == 'Struct' and len(T_['v'][0]['f']) == 1:
                return self.adt(ty, 0, self.decode(T_['v'][0]['f'][0][1], b, ptrs))
            if T_['ak'] == 'Struct' and not T_['v'][0]['f']:
                return self.adt(ty, 0)
            # niche of a fieldless enum or bool
            if T_['ak'] == 'Enum' and len(b) == 1 and len(T_['v']) == 2:
                for i, v in enumerate(T_['v']):
                    o = T_['v'][1 - i]['f']
                    if not v['f'] and len(o) == 1:
                        E = self.p.types[o[0][1]]
                        if E['k'] == 'bool' or E['k'] == 'adt' and E['ak'] == 'Enum' and all(not w['f'] for w in E['v']):
                            x = I(b[0]) if E['k'] == 'bool' and b[0] < 2 else self.decode(o[0][1], b, ptrs) if E['k'] == 'adt' else None
                            if x is not None and x.op in ('adt', 'int'):
                                return self.adt(ty, 1 - i, x)
                            return self.adt(ty, i)
            # Option-like niche of a reference / NonZero: all zero = first dataless variant
            if T_['ak'] == 'Enum' and not any(b):
                for i, v in enumerate(T_['v']):
                    if not v['f'] and len(T_['v']) == 2:
                        o = T_['v'][1 - i]['f']
                        if len(o) == 1 and self.p.types[o[0][1]]['k'] == 'ref' and 0 not in ptrs:
                            return self.adt(ty, i)
        return self.opq('const:%s:%s' % (b.hex(), sorted(ptrs.items())), ty)

    def decode_lay(self, ty, T_, b, ptrs):
        """constant of a type whose layout is in the dump"""
        lay = T_.get('lay')
        if not lay or len(b) < lay[0]:
            return None
        b, v = b[:lay[0]], lay[1]
        ptrs = {o: a for o, a in ptrs.items() if o < lay[0]}

        def fields(tys, offs):
            out = []
            if len(tys) != len(offs):
                return None
            for f, o in zip(tys, offs):
                sz = self.size_of(f)
                if sz is None:
                    return None
                out.append(self.decode(f, b[o:o + sz], {q - o: a for q, a in ptrs.items() if o <= q < o + sz}))
            return out
        if T_['k'] == 'tuple':
            xs = fields(T_['ts'], v.get('f', ()))
            return None if xs is None else mk('tup', *xs)
        if T_['k'] != 'adt' or T_['ak'] == 'Union':
            return None
        n = short(T_['n'])
        if n in ('String', 'Vec') and not T_['local']:
            return S('') if n == 'String' else mk('arr')
        if 'one' in v:
            vi, offs = v['one'], v['f']
        else:
            o, w = v['tag']
            if v['niche'] is None:
                d = int.from_bytes(b[o:o + w], 'little')
                vi = next((i for i, x in enumerate(T_['v']) if x['d'] is not None and (int(x['d']) - d) % (1 << 8 * w) == 0), None)
                if vi is None:
                    return None
            else:
                un, lo, hi, start = v['niche']
                vi = un
                if o not in ptrs:
                    d = (int.from_bytes(b[o:o + w], 'little') - int(start)) % (1 << 8 * w)
                    if d <= hi - lo:
                        vi = lo + d
            offs = v['vs'][vi]
        if vi >= len(T_['v']) or not T_['v'][vi]['f'] and offs:
            return None
        xs = fields([f[1] for f in T_['v'][vi]['f']], offs)
        return None if xs is None else self.adt(ty, vi, *xs)

    def decode_arr(self, et, n, data, ptrs, sz, off):
        if self.p.types[et]['k'] == 'uint' and sz == 1:
            return mk('bytes_', bytes(data[:n])) if n > 16 else mk('arr', *[I(x) for x in data[:n]])
        xs = []
        for i in range(n):
            o = off + i * sz
            sub = {q - o: a for q, a in ptrs.items() if o <= q < o + sz}
            xs.append(self.decode(et, data[i * sz:(i + 1) * sz], sub))
        return mk('arr', *xs)

    def size_of(self, ty):
        T_ = self.p.types[ty]
        k = T_['k']
        if k in ('uint', 'int', 'bool', 'char'):
            return self.p.size_of_int(ty)
        if k == 'float':
            return int(T_['n'][1:]) // 8
        if k in ('ref', 'ptr'):
            return 16 if self.p.types[T_['e']]['k'] in ('str', 'slice', 'dyn') else 8
        if k == 'array':
            s = self.size_of(T_['e'])
            return None if s is None or T_['n'] is None else s * int(T_['n'])
        if T_.get('lay'):
            return T_['lay'][0]
        if k == 'adt' and T_['ak'] == 'Enum' and all(not v['f'] for v in T_['v']):
            return 1
        return None

    def operand(self, st, F, o):
        if o[0] in ('c', 'm'):
            return self.read_place(st, F, o[1])
        if o[0] == 'k':
            return self.const(o[1])
        return I(0) if o[0] == 'rc' else self.opq('operand')

    def op_ty(self, F, o):
        if o[0] in ('c', 'm'):
            return self.place_ty(F, o[1])
        if o[0] == 'k':
            return o[1]['t']
        return None

    def place_ty(self, F, place):
        ty = F.body['locals'][place[0]]
        for e in place[1]:
            if e == '*':
                k = self.p.types[ty]
                ty = k.get('e', ty)
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.p.types[ty].get('e', ty)
            elif e[0] == 'oc':
                ty = e[1]
        return ty

    # ================================================================ events
    def emit(self, st, F, kind, data, bb=None, span=None):
        if not self.log_events:
            return
        self.events.append(Event(kind, F.inst['n'] if F else '', bb, span, data, dict(st.facts),
                                 tuple(self.callstack)))

    def obligation(self, st, F, bb, what, ok, detail='', span=None):
        self.emit(st, F, 'obl', (what, bool(ok), detail), bb, span)

    # ================================================================ rvalues
    def rvalue(self, st, F, r, dty, bb, span):
        k = r[0]
        if k == 'use':
            return self.operand(st, F, r[1])
        if k == 'ref':
            if r[1] in ('Shared', 'Fake') or str(r[1]).startswith('Shared') or str(r[1]).startswith('Fake'):
                pl = r[2]
                v = self.read_place(st, F, pl)
                return self.mkbox(v)
            return self.ref_place(st, F, r[2])
        if k == 'addr':
            return self.ref_place(st, F, r[1] if len(r) == 2 else r[-1])
        if k == 'len':
            return self.len_(self.read_place(st, F, r[1]))
        if k == 'discr':
            v = self.simp(st, self.read_place(st, F, r[1]))
            ty = self.place_ty(F, r[1])
            x = self.discr_of(v, ty)
            rg = self.p.int_range(dty) if x.op == 'int' and dty is not None else None
            if rg and x.a[0] > rg[1]:           # discriminants are written as unsigned bits
                x = I(x.a[0] - (rg[1] - rg[0] + 1))
            return x
        if k == 'cast':
            return self.cast(st, F, r[1], self.operand(st, F, r[2]), self.op_ty(F, r[2]), r[3], bb, span)
        if k in ('bin', 'cbin'):
            a, b = self.operand(st, F, r[2]), self.operand(st, F, r[3])
            return self.binop(st, F, r[1], a, b, k == 'cbin', dty, self.op_ty(F, r[2]))
        if k == 'un':
            a = self.operand(st, F, r[2])
            if r[1] == 'Not':
                if self.p.types[dty]['k'] == 'bool':
                    return self.b_not(a)
                return mk('bitnot', a, ty=dty)
            if r[1] == 'Neg':
                if a.op == 'int':
                    return I(-a.a[0])
                return mk('negv', a, ty=dty)
            if r[1] == 'PtrMetadata':
                v = self.deref(st, a)
                return self.len_(v)
            return mk('un', r[1], a, ty=dty)
        if k == 'repeat':
            n = r[2]
            return mk('rep', self.operand(st, F, r[1]), I(int(n)) if n is not None else self.opq('n'))
        if k == 'agg':
            ops = [self.operand(st, F, o) for o in r[2]]
            g = r[1]
            if g[0] == 'array':
                return mk('arr', *ops)
            if g[0] == 'tuple':
                return mk('tup', *ops)
            if g[0] == 'adt':
                v = self.adt(g[1], g[2], *ops)
                T_ = self.p.types[g[1]]
                if T_.get('local'):
                    self.emit(st, F, 'agg', v, bb, span)
                elif T_['n'] == 'std::string::String' and len(ops) == 1:
                    return ops[0]
                return v
            if g[0] == 'closure':
                return mk('clos', g[1], *ops)
            return self.opq('agg', dty)
        return self.opq('rv:%s' % k, dty)

    def discr_of(self, v, ty):
        if v.op == 'adt':
            T_ = self.p.types[v.a[0]]
            d = T_['v'][v.a[1]]['d']
            return I(int(d) if d is not None else v.a[1])
        return mk('discr', v, ty)

    def cast(self, st, F, kind, v, fty, tty, bb, span):
        kind = str(kind)
        if kind.startswith('IntToInt'):
            v = self.simp(st, v)
            if v.op == 'discr':
                return mk('discrcast', v.a[0], v.a[1], ty=tty)
            rg = self.p.int_range(tty) or ((0, 0x10ffff) if self.p.types[tty]['k'] == 'char' else None)
            lo, hi = self.iv(st, v)
            frg = self.p.int_range(fty) if fty is not None else None
            if frg:
                lo, hi = max(lo, frg[0]), min(hi, frg[1])
            if rg and lo >= rg[0] and hi <= rg[1]:
                return v
            if v.op == 'int':
                w = rg[1] - rg[0] + 1
                x = (v.a[0] - rg[0]) % w + rg[0]
                return I(x)
            self.emit(st, F, 'lossycast', (v, fty, tty), bb, span)
            return mk('cast', v, ty=tty)
        if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind.startswith('Transmute') or kind == 'BoxDerefTransmute' \
                or kind.startswith('Subtype'):
            return v
        if kind.startswith('FloatToInt') and v.op == 'flt':
            rg = self.p.int_range(tty)
            x = v.a[0]
            if x != x:
                return I(0)
            return I(max(rg[0], min(rg[1], int(x) if abs(x) != float('inf') else (rg[1] if x > 0 else rg[0]))))
        if kind.startswith('IntToFloat') and v.op == 'int' and abs(v.a[0]) < 2 ** 24:
            return mk('flt', float(v.a[0]))
        if kind.startswith('FloatToFloat') and v.op == 'flt':
            return mk('flt', self.flt_round(v.a[0], tty))
        self.emit(st, F, 'castother', (kind, v, fty, tty), bb, span)
        return mk('cast', v, ty=tty)

    def flt_round(self, x, ty):
        import struct
        if self.p.types[ty].get('n') != 'f32':
            return x
        try:
            return struct.unpack('<f', struct.pack('<f', x))[0]
        except OverflowError:
            return float('inf') if x > 0 else float('-inf')

    def binop(self, st, F, op, a, b, checked, dty, aty):
        op = op.replace('Unchecked', '')
        a = self.simp(st, a)
        b = self.simp(st, b)
        ovf = op.endswith('WithOverflow')
        if ovf:
            op = op[:-len('WithOverflow')]
        checked = checked or ovf
        fl = aty is not None and self.p.types[aty]['k'] == 'float'
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if fl:
                c = {'Eq': mk('bool', 'feq', a, b), 'Ne': mk('not', mk('bool', 'feq', a, b)),
                     'Lt': mk('bool', 'flt', a, b), 'Gt': mk('bool', 'flt', b, a),
                     'Le': mk('bool', 'fle', a, b), 'Ge': mk('bool', 'fle', b, a)}[op]
                return c
            if a.op == 'discr' or b.op == 'discr':
                return self.cmp_discr(op, a, b)
            if op == 'Eq':
                return self.b_eq(a, b)
            if op == 'Ne':
                return self.b_not(self.b_eq(a, b))
            if op == 'Lt':
                return self.b_lt(a, b)
            if op == 'Gt':
                return self.b_lt(b, a)
            if op == 'Le':
                return self.b_not(self.b_lt(b, a))
            if op == 'Ge':
                return self.b_not(self.b_lt(a, b))
        if fl:
            if a.op == 'flt' and b.op == 'flt' and (op in ('Add', 'Sub', 'Mul') or op == 'Div' and b.a[0] != 0):
                x, y = a.a[0], b.a[0]
                r = x + y if op == 'Add' else x - y if op == 'Sub' else x * y if op == 'Mul' else x / y
                return mk('flt', self.flt_round(r, dty))
            return mk('f' + op, a, b, ty=dty)
        vty = aty
        rg = self.p.int_range(vty) if vty is not None else None
        if op in ('Add', 'Sub', 'Mul'):
            if op == 'Add':
                r = self.add(a, b)
            elif op == 'Sub':
                r = self.sub(a, b)
            else:
                r = I(a.a[0] * b.a[0]) if a.op == 'int' and b.op == 'int' else mk('mul', a, b)
            if checked:
                return mk('tup', r, mk('ovf', r, rg[0], rg[1]))
            lo, hi = self.iv(st, r)
            if rg and (lo < rg[0] or hi > rg[1]):
                return mk('wrap', r, ty=vty)
            return r
        if op in ('BitAnd', 'BitOr', 'BitXor') and self.p.types[dty]['k'] == 'bool':
            if op == 'BitAnd':
                if a.op == 'int':
                    return b if a.a[0] else FALSE
                if b.op == 'int':
                    return a if b.a[0] else FALSE
                return mk('and', a, b)
            if op == 'BitOr':
                if a.op == 'int':
                    return TRUE if a.a[0] else b
                if b.op == 'int':
                    return TRUE if b.a[0] else a
                return mk('or', a, b)
            return self.b_not(mk('eq', a, b))
        if op in ('Shl', 'Shr') and checked:
            r = self.bits(op, a, b, vty)
            return mk('tup', r, FALSE if b.op == 'int' and 0 <= b.a[0] < 8 * self.p.size_of_int(vty)
                      else mk('bool', 'shovf', b))
        if op == 'BitAnd' and b.op == 'int' and b.a[0] >= 0 and b.a[0] & b.a[0] + 1 == 0 and a.op != 'int':
            lo, hi = self.iv(st, a)
            if lo >= 0 and hi <= b.a[0]:
                return a
        if a.op == 'int' and b.op == 'int':
            x, y = a.a[0], b.a[0]
            try:
                v = {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                     'Div': lambda: int(x / y) if abs(x) < 2 ** 50 else x // y,
                     'Rem': lambda: x - y * int(x / y) if abs(x) < 2 ** 50 else x % y}[op]()
                if rg:
                    w = rg[1] - rg[0] + 1
                    v = (v - rg[0]) % w + rg[0]
                return I(v)
            except Exception:
                pass
        r = self.bits(op, a, b, vty)
        if op in ('BitAnd', 'Div', 'Rem', 'Shr') and vty is not None and r.op == 'b' + op:
            x, y = self.iv(st, a), self.iv(st, b)
            if x[0] >= 0 and y[0] >= 0:
                # never more than the left operand
                self.constrain(st, r, a, -2 ** 130, 0)
        return r

    def bits(self, op, a, b, ty):
        return mk('b' + op, a, b, ty=ty)

    def cmp_discr(self, op, a, b):
        if b.op == 'discr' and a.op != 'discr':
            a, b = b, a
        if a.op == 'discr' and b.op == 'int' and op in ('Eq', 'Ne'):
            vs = self.variants_with_discr(a.a[1], b.a[0])
            c = mk('isvar', a.a[0], tuple(sorted(vs)))
            return c if op == 'Eq' else self.b_not(c)
        if op == 'Eq':
            return self.b_eq(a, b)
        if op == 'Ne':
            return self.b_not(self.b_eq(a, b))
        return mk('bool', 'cmp' + op, a, b)

    def variants_with_discr(self, ty, val):
        vs = [int(v['d']) if v['d'] is not None else i for i, v in enumerate(self.variants(ty))]
        if val < 0:
            top = max(vs, default=0)
            for w in (8, 16, 32, 64, 128):
                if top < 2 ** w:
                    val += 2 ** w
                    break
        return [i for i, d in enumerate(vs) if d == val]

    # ================================================================ blocks
    def frame(self, inst, path):
        key = path
        fid = self.fids.get(key)
        if fid is None:
            fid = len(self.fids) + 1
            self.fids[key] = fid
        cfg = self.cfgs.get(inst['i'])
        if cfg is None:
            cfg = Cfg(self.p, inst['body'])
            mb = set()
            for b in inst['body']['blocks']:
                for s in b['s']:
                    if s[0] == '=' and (s[2][0] == 'addr' or s[2][0] == 'ref' and not str(s[2][1]).startswith(('Shared', 'Fake'))):
                        pl = s[2][2] if s[2][0] == 'ref' else s[2][-1]
                        if '*' not in pl[1]:
                            mb.add(pl[0])
            cfg.mutborrowed = mb
            self.cfgs[inst['i']] = cfg
        return Frame(inst, inst['body'], cfg, fid, path)

    def stmt(self, st, F, s, bb):
        if s[0] == '=':
            v = self.rvalue(st, F, s[2], self.place_ty(F, s[1]), bb, s[3] if len(s) > 3 else None)
            if not s[1][1]:
                st.mem[(F.id, s[1][0])] = v
            else:
                pl = s[1]
                proj = self.conv_proj(st, F, pl[1], F.body['locals'][pl[0]])
                self.log_fieldwrite(st, F, pl, v, bb, s[3] if len(s) > 3 else None)
                self.write_path(st, F, (F.id, pl[0]), proj, v)
        elif s[0] == 'setd':
            pl = s[1]
            ty = self.place_ty(F, pl)
            v = self.read_place(st, F, pl)
            if v.op == 'adt' and v.a[1] == s[2]:
                return
            nf = len(self.variants(ty)[s[2]]['f'])
            nv = self.adt(ty, s[2], *[self.opq('uninit') for _ in range(nf)])
            self.write_path(st, F, (F.id, pl[0]), self.conv_proj(st, F, pl[1], F.body['locals'][pl[0]]), nv)

    def log_fieldwrite(self, st, F, pl, v, bb, span):
        # last field projection on a local ADT
        ty = F.body['locals'][pl[0]]
        last = None
        variant = None
        for e in pl[1]:
            if e == '*':
                ty = self.p.types[ty].get('e', ty)
            elif e[0] == 'd':
                variant = e[1]
            elif e[0] == 'f':
                T_ = self.p.types[ty]
                if T_['k'] == 'adt' and T_.get('local'):
                    last = (ty, variant or 0, e[1])
                ty = e[2]
                variant = None
            else:
                ty = self.p.types[ty].get('e', ty) if e[0] in ('i', 'ci') else ty
        if last:
            self.emit(st, F, 'write', (last[0], last[1], last[2], v), bb, span)

    def block(self, F, bb, st):
        """execute one block; list of (target, state); 'ret' for return"""
        self.visits += 1
        self.blocks_seen.add((F.inst['i'], bb))
        B = F.body['blocks'][bb]
        for s in B['s']:
            self.stmt(st, F, s, bb)
        t = B['t']
        k = t[0]
        sp = B.get('sp')
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'unreachable':
            return []
        if k == 'drop':
            return [(t[2], st)]
        if k == 'switch':
            return self.switch(F, bb, st, t)
        if k == 'assert':
            c = self.operand(st, F, t[1])
            want = bool(t[2])
            what = str(t[3]).split(' ')[0]
            if what in ('NullPointerDereference', 'MisalignedPointerDereference'):
                return [(t[5], st)]
            ok = True
            s2 = st.copy()
            detail = ''
            if what == 'bounds':
                ln = self.operand(st, F, t[4][0])
                ix = self.operand(st, F, t[4][1])
                ok = self.prove_lt(st, ix, ln)
                detail = '%s < %s' % (show(ix, 5), show(ln, 5))
                try:
                    self.constrain(st, ix, ln, -2 ** 130, -1)
                except Dead:
                    self.obligation(s2, F, bb, what, ok, detail, sp)
                    return []
            else:
                try:
                    self.assume(s2, c, not want)
                    ok = False
                    detail = show(c, 6)
                except Dead:
                    ok = True
                self.obligation(st, F, bb, what, ok, detail, sp)
                try:
                    self.assume(st, c, want)
                except Dead:
                    return []
                return [(t[5], st)]
            self.obligation(st, F, bb, what, ok, detail, sp)
            return [(t[5], st)]
        if k == 'call':
            outs = self.call_term(F, bb, st, t, sp)
            if t[4] is None:
                return []
            res = []
            for s2, v in outs:
                pl = t[3]
                if not pl[1]:
                    s2.mem[(F.id, pl[0])] = v
                else:
                    self.log_fieldwrite(s2, F, pl, v, bb, sp)
                    self.write_path(s2, F, (F.id, pl[0]),
                                    self.conv_proj(s2, F, pl[1], F.body['locals'][pl[0]]), v)
                res.append((t[4], s2))
            return res
        raise EngineError('terminator ' + k)

    def switch(self, F, bb, st, t):
        if t[1][0] in ('c', 'm') and not t[1][1][1] and t[1][1][0] in F.cfg.drop_flags:
            return [(t[3], st)]
        v = self.simp(st, self.operand(st, F, t[1]))
        vals = [(int(x), b) for x, b in t[2]]
        if v.op == 'int':
            for x, b in vals:
                if x == v.a[0]:
                    return [(b, st)]
            # unsigned encodings of negative values
            for x, b in vals:
                if v.a[0] < 0 and (x - v.a[0]) in (2 ** 8, 2 ** 16, 2 ** 32, 2 ** 64, 2 ** 128):
                    return [(b, st)]
            return [(t[3], st)]
        out = []
        if v.op == 'discr':
            ty = v.a[1]
            allv = set(range(len(self.variants(ty))))
            for x, b in vals:
                vs = self.variants_with_discr(ty, x)
                allv -= set(vs)
                s2 = st.copy()
                try:
                    self.assume_var(s2, v.a[0], vs)
                    out.append((b, s2))
                except Dead:
                    pass
            if allv and F.body['blocks'][t[3]]['t'][0] != 'unreachable':
                s2 = st.copy()
                try:
                    self.assume_var(s2, v.a[0], allv)
                    out.append((t[3], s2))
                except Dead:
                    pass
            return out
        bool_ = self.boolish(v)
        if bool_:
            done = set()
            for x, b in vals:
                s2 = st.copy()
                done.add(x)
                try:
                    self.assume(s2, v, bool(x))
                    out.append((b, s2))
                except Dead:
                    pass
            rest = {0, 1} - done
            if rest:
                s2 = st.copy()
                try:
                    if len(rest) == 1:
                        self.assume(s2, v, bool(list(rest)[0]))
                    out.append((t[3], s2))
                except Dead:
                    pass
            return out
        s3 = st
        for x, b in vals:
            s2 = s3.copy()
            try:
                self.assume(s2, self.b_eq(v, I(x)), True)
                out.append((b, s2))
            except Dead:
                pass
        try:
            s3 = s3.copy()
            for x, b in vals:
                self.assume(s3, self.b_eq(v, I(x)), False)
            out.append((t[3], s3))
        except Dead:
            pass
        return out

    # ---- partitions
    def shape(self, st, v, d=2):
        if v.op == 'adt' and self.is_enum(v.a[0]):
            if d <= 0:
                return (v.a[1],)
            return (v.a[1],) + tuple(self.shape(st, x, d - 1) for x in v.a[2:])
        if v.op == 'box' and d > 0 and v.a[0].op == 'adt':
            return self.shape(st, v.a[0], d)
        if v.op == 'tup' and d > 0:
            return tuple(self.shape(st, x, d - 1) for x in v.a)
        return None

    def key(self, F, bb, st):
        k = []
        for l in F.cfg.live[bb]:
            v = st.mem.get((F.id, l))
            if v is None:
                continue
            if v.op == 'int':
                if self.p.types[F.body['locals'][l]]['k'] == 'bool' and l not in F.cfg.drop_flags:
                    k.append((l, v.a[0]))
            elif v.op in ('adt', 'tup'):
                s = self.shape(st, v)
                if s is not None and s != ():
                    k.append((l, s))
        return tuple(sorted(k, key=str))

    def prune(self, F, bb, st):
        live = F.cfg.live[bb]
        mb = F.cfg.mutborrowed
        dead = [c for c in st.mem if c[0] == F.id and c[1] not in live and c[1] not in mb]
        for c in dead:
            del st.mem[c]

    def add_state(self, F, pend, bb, st):
        self.prune(F, bb, st)
        d = pend.setdefault(bb, {})
        k = self.key(F, bb, st)
        if k in d:
            d[k] = self.join(F, bb, d[k], st)
        else:
            if len(d) >= self.maxstates:
                # cap: join everything
                r = st
                for o in d.values():
                    r = self.join(F, bb, o, r)
                d.clear()
                d[()] = r
                return
            if () in d and len(d) == 1 and k and getattr(self, '_capped', False):
                d[()] = self.join(F, bb, d[()], st)
            else:
                d[k] = st

    def region(self, F, blocks, entry, states, header=None):
        """evaluate the acyclic quotient of a region; returns (backs, exits)"""
        cfg = F.cfg
        pend = {entry: states}
        backs, exits = [], []
        first = True
        while pend:
            b = min(pend, key=lambda x: cfg.rpo[x])
            sts = pend.pop(b)
            if b in cfg.headers and b != header:
                outs = self.loop(F, b, sts)
            else:
                outs = []
                for s in sts.values():
                    try:
                        outs.extend(self.block(F, b, s.copy()))
                    except Dead:
                        pass
            for tgt, s in outs:
                if tgt == 'ret':
                    exits.append((tgt, s))
                elif tgt == header:
                    backs.append(s)
                elif tgt in blocks:
                    self.add_state(F, pend, tgt, s)
                else:
                    exits.append((tgt, s))
        return backs, exits

    def loop(self, F, h, sts):
        hid = (F.id, h)
        sts = list(sts.values())
        E = sts[0]
        for s in sts[1:]:
            E = self.join(F, h, E, s)
        for x in self.active:
            self.under.setdefault(x, set()).add(hid)
        self.under.setdefault(hid, set())
        H = E.copy()
        mark = len(self.events)
        phis = set()
        it = 0
        self.active.append(hid)
        try:
            while True:
                del self.events[mark:]
                backs, exits = self.region(F, F.cfg.loops[h], h, {(): H.copy()}, header=h)
                if not backs:
                    break
                Hn = self.header_join(F, h, hid, E, H, backs, phis, it)
                if Hn.mem == H.mem and Hn.facts == H.facts:
                    break
                H = Hn
                it += 1
                if it > 40:
                    raise EngineError('loop does not stabilise: %s bb%d' % (F.inst['n'], h))
        finally:
            self.active.pop()
        self.emit(H, F, 'loop', (h, it, len(exits)), h, F.body['blocks'][h].get('sp'))
        # join exits per target by key
        out = {}
        for tgt, s in exits:
            if tgt == 'ret':
                out.setdefault('ret', {}).setdefault(id(s), s)
            else:
                self.add_state(F, out, tgt, s)
        return [(t, s) for t, d in out.items() for s in d.values()]

    def header_join(self, F, h, hid, E, H, backs, phis, it):
        kill = self.under[hid] | {hid}
        for b in backs:
            self.prune(F, h, b)
        self.prune(F, h, E)
        mem = {}
        newfacts = {}
        for cell, e in E.mem.items():
            bs = []
            miss = False
            for b in backs:
                if cell not in b.mem:
                    miss = True
                    break
                bs.append(b.mem[cell])
            if miss:
                continue
            mem[cell] = self.hj(hid, (cell,), [(E, e)] + list(zip(backs, bs)), phis, newfacts,
                                H.mem.get(cell), self.cell_ty(F, cell))
        # facts
        facts = None
        for s in [E] + backs:
            fs = {k: f for k, f in s.facts.items() if not (k.marks & kill)}
            facts = fs if facts is None else join_facts(facts, fs)
        facts = dict(facts or {})
        if it >= 1:
            # ordinary facts must not grow: keep only stable ones
            for k in list(facts):
                g = H.facts.get(k)
                if g != facts[k]:
                    if it >= 2:
                        del facts[k]
        for k, f in newfacts.items():
            g = H.facts.get(k)
            if f is not None and f[0] == 'iv' and it >= 2:
                if g is None:
                    if it >= 3:
                        f = None
                elif g[0] == 'iv':
                    lo, hi = f[1], f[2]
                    if lo < g[1]:
                        lo = max([x for x in THRESH_LO if x <= lo] or [-2 ** 130])
                    else:
                        lo = g[1]
                    if hi > g[2]:
                        hi = min([x for x in THRESH if x >= hi] or [2 ** 130])
                    else:
                        hi = g[2]
                    f = ('iv', lo, hi)
                    c = self.cbound.get(k)
                    if c is not None:
                        f = ('iv', max(lo, c[1]), min(hi, c[2]))
            if f is not None:
                facts[k] = f
        # a purge must not leave stale facts about this loop's phis
        return State(mem, facts)

    def hj(self, hid, path, srcs, phis, newfacts, old, ty):
        vals = [v for _, v in srcs]
        v0 = vals[0]
        if path not in phis:
            if all(v is v0 for v in vals):
                return v0
            op = v0.op
            if op in ('adt', 'tup', 'clos', 'iter', 'box') and all(v.op == op for v in vals) and \
                    all(len(v.a) == len(v0.a) for v in vals):
                nfix = {'adt': 2, 'tup': 0, 'clos': 1, 'iter': 1, 'box': 0}[op]
                if all(v.a[:nfix] == v0.a[:nfix] for v in vals):
                    if old is not None and old.op == op and len(old.a) == len(v0.a):
                        olds = old.a
                    else:
                        olds = [None] * len(v0.a)
                    args = list(v0.a[:nfix])
                    for i in range(nfix, len(v0.a)):
                        fty = None
                        if op == 'adt':
                            fty = self.p.types[v0.a[0]]['v'][v0.a[1]]['f'][i - 2][1]
                        if not isinstance(v0.a[i], T):
                            args.append(v0.a[i])
                            continue
                        args.append(self.hj(hid, path + (i,), [(s, v.a[i]) for s, v in srcs], phis, newfacts,
                                            olds[i], fty))
                    return mk(op, *args)
            phis.add(path)
        if ty is None:
            for v in vals:
                ty = self.ty_of(v)
                if ty is not None:
                    break
        if ty is not None and self.p.types[ty]['k'] == 'tuple' and not self.p.types[ty]['ts']:
            return UNIT
        ph = mk('phi', hid, path, ty=ty, marks=frozenset([hid]))
        self.src.setdefault(ph, set()).update(v for v in vals if v is not ph)
        self.phi_facts(ph, srcs, ty, newfacts)
        return ph

    def delta(self, v, ph, d=12, st=None):
        """bounds of v - ph, if v is ph plus bounded steps on every arm"""
        if v is ph:
            return 0, 0
        if d <= 0:
            return None
        if v.op == 'add' and v.a[1].op == 'int':
            r = self.delta(v.a[0], ph, d - 1, st)
            return r and (r[0] + v.a[1].a[0], r[1] + v.a[1].a[0])
        if v.op == 'alt':
            rs = [self.delta(x, ph, d - 1, st) for _, x in v.a[0]]
            if all(rs):
                return min(r[0] for r in rs), max(r[1] for r in rs)
        if st is not None and v.op in ('sum', 'diff', 'satsub'):
            for i, x in enumerate(v.a[:2] if v.op == 'sum' else v.a[:1]):
                r = self.delta(x, ph, d - 1, st)
                if r:
                    b = self.models.mem_iv(st, v.a[1 - i]) if hasattr(self.models, 'mem_iv') else self.iv(st, v.a[1 - i])
                    if max(abs(b[0]), abs(b[1])) > 2 ** 33:
                        return None
                    if v.op == 'sum':
                        return r[0] + b[0], r[1] + b[1]
                    return r[0] - b[1], r[1] - b[0]
        return None

    def counter(self, ph, srcs):
        """a value that changes by at most k per iteration stays within k * MAXITER of its start
        (every loop takes one element of a finite input per iteration; inputs are < 2 GiB)"""
        lo = hi = None
        up = dn = 0
        for s, v in srcs:
            r = self.delta(v, ph, st=s)
            if r is not None:
                dn = min(dn, r[0]); up = max(up, r[1])
            else:
                a = self.iv_deep(s, v)
                lo = a[0] if lo is None else min(lo, a[0])
                hi = a[1] if hi is None else max(hi, a[1])
        if lo is None or (up == 0 and dn == 0):
            return None
        return ('iv', lo + dn * MAXITER, hi + up * MAXITER)

    def phi_facts(self, ph, srcs, ty, newfacts, d=3):
        """facts of a phi from its sources, each in its own state"""
        f = None
        if ty is not None and self.is_int_ty(ty) or any(v.op == 'int' for _, v in srcs):
            for i, (s, v) in enumerate(srcs):
                a = self.iv_deep(s, v)
                g = ('iv', a[0], a[1])
                f = g if i == 0 else f_join(f, g)
            c = self.counter(ph, srcs)
            if c is not None:
                # invariant bound; also keeps the widening from overshooting
                self.cbound[ph] = c
            else:
                self.cbound.pop(ph, None)
            newfacts[ph] = f
        elif ty is not None and self.is_enum(ty):
            vs = frozenset()
            for s, v in srcs:
                vs |= self.varset(s, v)
            newfacts[ph] = ('var', vs)
            if d > 0:
                for vi in vs:
                    if vi >= len(self.variants(ty)):
                        continue
                    for i, fd in enumerate(self.variants(ty)[vi]['f']):
                        sub = []
                        for s, v in srcs:
                            if vi in self.varset(s, v):
                                if v is ph:
                                    continue
                                sub.append((s, self.field(s, v, vi, i, fd[1])))
                        if sub:
                            q = self.fld(ph, vi, i, fd[1])
                            if q is not UNIT:
                                self.src.setdefault(q, set()).update(v for _, v in sub if v is not q)
                                # the phi itself carries its previous facts
                                prev = [(s, q) for s, v in srcs if v is ph]
                                self.phi_facts(q, sub + prev, fd[1], newfacts, d - 1)
        else:
            # list / string length
            ks = []
            okl = True
            for s, v in srcs:
                if v.op in ('arr', 'vpush', 'phi', 'cat', 'str', 'slice', 'vremove', 'vset', 'vcat', 'alt'):
                    ks.append(self.iv_deep(s, self.len_(v)))
                else:
                    okl = False
            if okl and ks:
                newfacts[self.len_(ph)] = ('iv', min(a[0] for a in ks), max(a[1] for a in ks))

    # ---- joins outside loop headers
    def join(self, F, bb, a, b):
        if a is b:
            return a
        fa, fb = a.facts, b.facts
        facts = join_facts(fa, fb, self, a, b)
        Da = tuple(sorted(((k, f) for k, f in fa.items() if fb.get(k) != f), key=lambda x: x[0].id))
        Db = tuple(sorted(((k, f) for k, f in fb.items() if fa.get(k) != f), key=lambda x: x[0].id))
        mem = {}
        for c, v in a.mem.items():
            w = b.mem.get(c)
            if w is None:
                continue
            if v is w:
                mem[c] = v
            else:
                mem[c] = self.jt(v, w, Da, Db, a, b)
        return State(mem, facts)

    def jt(self, v, w, Da, Db, a, b):
        if v is w:
            return v
        if v.op == w.op and len(v.a) == len(w.a):
            nfix = {'adt': 2, 'tup': 0, 'clos': 1, 'iter': 1, 'box': 0}.get(v.op)
            if nfix is not None and v.a[:nfix] == w.a[:nfix]:
                return mk(v.op, *v.a[:nfix],
                          *[self.jt(x, y, Da, Db, a, b) if isinstance(x, T) else x
                            for x, y in zip(v.a[nfix:], w.a[nfix:])])
        # same value under complementary extra conditions: keep which facts select which
        arms = []
        for t, D, s in ((v, Da, a), (w, Db, b)):
            if t.op == 'alt':
                for c, x in t.a[0]:
                    arms.append((merge_conds(c, D), x))
            else:
                arms.append((D, t))
        merged = []
        for c, x in arms:
            for i, (c2, x2) in enumerate(merged):
                if x2 is x:
                    merged[i] = (weaken(c2, c), x)
                    break
            else:
                merged.append((c, x))
        if len(merged) == 1:
            return merged[0][1]
        if len(merged) > 64:
            ty = self.ty_of(v) or self.ty_of(w)
            self.fresh += 1
            ph = mk('phi', ('j', self.fresh), (), ty=ty, marks=self.curmarks())
            self.src[ph] = set(x for _, x in merged)
            return ph
        return mk('alt', tuple(merged))

    # ================================================================ calls
    def call_term(self, F, bb, st, t, sp):
        args = [self.operand(st, F, a) for a in t[2]]
        f = t[1]
        if f[0] == 'k':
            ty = self.p.types[f[1]['t']]
            if ty['k'] == 'fndef' and ty.get('inst') is not None:
                return self.call_inst(F, bb, st, self.p.insts[ty['inst']], args, t, sp)
        v = self.operand(st, F, f)
        return self.call_value(F, bb, st, v, args, t, sp)

    def call_value(self, F, bb, st, v, args, t, sp):
        while v.op == 'box':
            v = v.a[0]
        if v.op == 'ref':
            v = self.read_path(st, v.a[0], v.a[1])
        if v.op == 'fn':
            ty = self.p.types[v.a[0]]
            if ty.get('inst') is not None:
                return self.call_inst(F, bb, st, self.p.insts[ty['inst']], args, t, sp)
            # tuple constructor used as a function
        if v.op == 'clos':
            return self.call_closure(F, bb, st, v, args, t, sp)
        self.emit(st, F, 'dyncall', (v, tuple(args)), bb, sp)
        dty = self.place_ty(F, t[3]) if t else None
        return [(st, self.opq('dyncall:%d' % v.id, dty, self.curmarks()))]

    def closure_inst(self, v):
        ty = self.p.types[v.a[0]]
        ins = ty.get('insts') or {}
        for k in ('FnOnce', 'FnMut', 'Fn'):
            if ins.get(k) is not None:
                return self.p.insts[ins[k]]
        return None

    def call_closure(self, F, bb, st, v, args, t=None, sp=None, env=None):
        """args: list of actual arguments"""
        inst = self.closure_inst(v)
        if inst is None or not inst['body']:
            raise EngineError('closure without body %s' % self.p.tname(v.a[0]))
        l1 = inst['body']['locals'][1]
        if env is None:
            if self.p.types[l1]['k'] == 'ref':
                if self.p.types[l1].get('mut'):
                    self.fresh += 1
                    cell = ('h', 'env%d' % v.id)
                    st.mem[cell] = v
                    env = mk('ref', cell, ())
                else:
                    env = mk('box', v)
            else:
                env = v
        return self.run(inst, [env] + list(args), st, (F.path if F else ()) + ((F.inst['i'] if F else -1, bb, inst['i']),))

    def call_inst(self, F, bb, st, inst, args, t, sp):
        m = self.models.find(inst)
        if m is not None:
            r = m(F, bb, st, inst, args, t, sp)
            if r is not None:
                return r
        if inst['body'] is None:
            return self.models.default(F, bb, st, inst, args, t, sp)
        if inst['local']:
            self.emit(st, F, 'lcall', (inst['n'], tuple(args)), bb, sp)
            if self.cut(inst):
                return self.models.opaque_result(F, bb, st, inst, args, t, sp)
        if self.depth > 60:
            raise EngineError('inlining depth at %s' % inst['n'])
        if t is not None and '{closure' in inst['d'].split('::')[-1] and len(args) == 2 and args[1].op == 'tup' \
                and inst['body']['argc'] == 2:
            # the arguments of a closure called from MIR are packed in a tuple
            args = [args[0]] + list(args[1].a)
        path = F.path + ((F.inst['i'], bb, inst['i']),)
        if sum(1 for p in path if p[2] == inst['i']) > 1 and inst['local']:
            self.emit(st, F, 'recursion', inst['n'], bb, sp)
            return self.models.opaque_result(F, bb, st, inst, args, t, sp)
        # tuple-packed closure arguments of Fn* traits
        return self.run(inst, args, st, path, t)

    def run(self, inst, args, st, path, t=None):
        F = self.frame(inst, path)
        body = inst['body']
        if len(args) != body['argc']:
            # "rust-call": last argument is a tuple
            if args and args[-1].op == 'tup' and len(args) - 1 + len(args[-1].a) == body['argc']:
                args = list(args[:-1]) + list(args[-1].a)
            else:
                raise EngineError('arity of %s: %d vs %d' % (inst['n'], len(args), body['argc']))
        for i, a in enumerate(args):
            st.mem[(F.id, i + 1)] = a
        self.depth += 1
        self.callstack.append(inst['n'])
        try:
            cfg = F.cfg
            _, exits = self.region(F, cfg.reach, 0, {(): st})
        finally:
            self.depth -= 1
            self.callstack.pop()
        out = {}
        for tgt, s in exits:
            if tgt != 'ret':
                raise EngineError('exit to %s' % tgt)
            r = s.mem.get((F.id, 0), UNIT)
            for c in [c for c in s.mem if c[0] == F.id]:
                del s.mem[c]
            s.mem[('r', 0)] = r
            k = (self.shape(s, r), r.a[0] if r.op == 'int' else None)
            if k in out:
                out[k] = self.join(None, None, out[k], s)
            else:
                out[k] = s
        res = []
        for k, s in out.items():
            r = s.mem.pop(('r', 0))
            res.append((s, r))
        return res

    # ================================================================ roots
    def arg_for(self, st, name, ty):
        """opaque argument of a root"""
        k = self.p.types[ty]
        if k['k'] == 'ref':
            if k.get('mut'):
                cell = ('h', name)
                et = k['e']
                ek = self.p.types[et]
                if ek['k'] == 'adt' and short(ek['n']) == 'Formatter':
                    st.mem[cell] = S('')
                else:
                    st.mem[cell] = self.opq(name, et)
                return mk('ref', cell, ())
            return mk('box', self.opq(name, k['e']))
        if k['k'] == 'closure':
            ups = []
            return mk('clos', ty)
        return self.opq(name, ty)

    def root(self, inst, args=None, st=None):
        """analyse an instance with opaque arguments"""
        st = st or State()
        body = inst['body']
        if args is None:
            inv = {v: k for k, v in body['names'].items()}
            args = []
            for i in range(body['argc']):
                nm = body['names'].get(str(i + 1), 'arg%d' % i)
                args.append(self.arg_for(st, nm, body['locals'][i + 1]))
        ev0 = len(self.events)
        outs = self.run(inst, list(args), st, ((-1, 0, inst['i']),))
        return outs, self.events[ev0:]


def merge_conds(c, D):
    d = dict(c)
    for k, f in D:
        try:
            d[k] = f_meet(d.get(k), f)
        except Dead:
            d[k] = f
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def weaken(c1, c2):
    d1, d2 = dict(c1), dict(c2)
    r = {}
    for k, f in d1.items():
        if k in d2:
            j = f_join(f, d2[k])
            if j is not None:
                r[k] = j
    return tuple(sorted(r.items(), key=lambda x: x[0].id))


def join_facts(fa, fb, it=None, sa=None, sb=None):
    r = {}
    for k, f in fa.items():
        g = fb.get(k)
        if g is None:
            if it is not None and f[0] == 'iv' and k.op in ('len', 'phi', 'opq', 'fld', 'item'):
                a = it.iv(sb, k, 3)
                j = ('iv', min(a[0], f[1]), max(a[1], f[2]))
                base = it.iv0(State(), k, 2)
                if (j[1], j[2]) != base and j[1] >= -2 ** 129 and j[2] <= 2 ** 129:
                    r[k] = j
            continue
        if f == g:
            r[k] = f
            continue
        j = f_join(f, g)
        if j is not None:
            r[k] = j
    if it is not None:
        for k, g in fb.items():
            if k not in fa and g[0] == 'iv' and k.op in ('len', 'phi', 'opq', 'fld', 'item'):
                a = it.iv(sa, k, 3)
                j = ('iv', min(a[0], g[1]), max(a[1], g[2]))
                base = it.iv0(State(), k, 2)
                if (j[1], j[2]) != base and j[1] >= -2 ** 129 and j[2] <= 2 ** 129:
                    r[k] = j
    return r
