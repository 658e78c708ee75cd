"""Template domain: the abstract interpreter over string templates (literals and generic tokens).

A template is a concatenation of literals and holes; a hole stands for every string of its class:
  w   an identifier-like word: non-empty, letters and digits, no keyword, not a number
  n   decimal digits of an unsigned number        f   a finite non-negative float
  4/6 an IPv4 / IPv6 address in text form          h   hexadecimal digits
String operations whose result is the same for every member of the class are evaluated on the template; all others stay
opaque (the verdict is then `undetermined`).  Traces are partitioned instead of joined, loops over templates and lists of
known length are peeled.
"""
import ipaddress
import re
from terms import *
from interp import Interp, EngineError, short, join_facts
from models import Models, cat, method


def fconst(lit, ty):
    """the float a literal denotes"""
    import struct
    v = float(lit)
    if ty == 'f32':
        v = struct.unpack('<f', struct.pack('<f', v))[0]
    return mk('flt', v)


class Undet(EngineError):
    pass


WS = ' \t\n\r\x0b\x0c'
HEX = '0123456789abcdefABCDEF'


WORDS = {}      # words to take the place of unknown ones (second rounds of the checks)


def hole(name):
    w = WORDS.get(name)
    return mk('hole', name) if w is None else mk('str', w)


def specof(sp):
    """flags and width of a format specification"""
    fl = w = 0
    for e in sp.split(','):
        if e[:1] == 'f':
            fl = int(e[1:], 16)
        elif e[:1] == 'w':
            w = int(e[1:])
    return fl, w


def ipshow(x):
    """how std prints the address"""
    ip = ipaddress.ip_address(x)
    m = ip.ipv4_mapped if ip.version == 6 else None
    return x if m is None else '::ffff:%s' % m


def digits(p):
    """(least, greatest) number of characters of a hole"""
    c = cls(p)
    y, w = p, 0
    while y.op in ('spec', 'lower', 'upper'):
        if y.op == 'spec':
            w = max(w, specof(y.a[1])[1])
        y = y.a[0]
    if c in ('h', 'n') and y.op in ('hex', 'disp') and isinstance(y.a[0], T) and y.a[0].op == 'opq' and y.a[0].ty is not None:
        k = _P[0].types[y.a[0].ty]
        if k['k'] == 'uint' and k['n'][1:].isdigit():
            b = int(k['n'][1:])
            n = b // 4 if c == 'h' else len(str(2 ** b - 1))
            return max(1, w), max(n, w)
    return (7 if c == '4' else 2 if c == '6' else max(1, w)), None


def cls(x):
    """class of a hole, None when x is no hole"""
    if x.op == 'hole':
        return 'w'
    if x.op in ('lower', 'upper') and cls(x.a[0]):
        return cls(x.a[0])
    if x.op == 'disp':
        v, ty = x.a
        k = _P[0].types.get(ty) if ty is not None else None
        if k is None or not isinstance(v, T):
            return None
        if k['k'] == 'uint':
            return 'n'
        if k['k'] == 'float':
            return 'f'
        if k['k'] == 'adt':
            n = short(k['n'])
            if n == 'IpAddr' and v.op == 'adt':
                return '4' if v.a[1] == 0 else '6'
            if n == 'Ipv4Addr':
                return '4'
            if n == 'Ipv6Addr':
                return '6'
        return None
    if x.op == 'spec':
        y, sp = x.a
        fl, w = specof(sp)
        if fl & (1 << 21 | 1 << 23) or w and not fl & 1 << 24:
            return None
        if y.op == 'hex':
            return 'h'
        c = cls(y)
        return c if c in ('n',) else None
    if x.op == 'hex':
        return 'h'
    return None


_P = [None]


def mayhave(c, ch):
    if c == 'w':
        return False                 # words are generic: no particular character
    if c == 'n':
        return ch in '0123456789'
    if c == 'f':
        return ch in '0123456789.'
    if c == '4':
        return ch in '0123456789.'
    if c == '6':
        return ch in HEX + ':.'
    if c == 'h':
        return ch in HEX
    return True


def musthave(c, ch):
    return c == '4' and ch == '.' or c == '6' and ch == ':'


def parts(x):
    ys = x.a if x.op == 'cat' else (x,)
    out = []
    for y in ys:
        if y.op == 'str':
            if y.a[0]:
                out.append(y)
        elif cls(y):
            out.append(y)
        else:
            return None
    return out


def prefixes(ps):
    """every cut point: (parts before, parts after)"""
    yield [], list(ps)
    for i, p in enumerate(ps):
        if p.op == 'str':
            for k in range(1, len(p.a[0])):
                yield ps[:i] + [S(p.a[0][:k])], [S(p.a[0][k:])] + ps[i + 1:]
        yield ps[:i + 1], ps[i + 1:]


# (name of a word, literal) pairs the analysed code told apart
MAGIC = set()


def wordname(x):
    """name of a generic word, through case folding"""
    while x.op in ('lower', 'upper'):
        x = x.a[0]
    return x.a[0] if x.op == 'hole' else None


class Nope(Exception):
    """not decidable on the template"""


def occurs(ps, pred1, width=1):
    """positions of matches inside literals; pred1(string, index) -> match length or 0; Nope when a hole may match"""
    out = []
    for i, p in enumerate(ps):
        if p.op == 'str':
            k = 0
            s = p.a[0]
            while k < len(s):
                n = pred1(s, k)
                if n:
                    out.append((i, k, n))
                    k += n
                else:
                    k += 1
    return out


def matcher(pt, holes):
    """matcher for a pattern term, checking that no hole can match"""
    for h in holes:
        n = wordname(h)
        if n is not None:
            for c in [pt.a[0]] if pt.op == 'str' else pt.a[0] if pt.op == 'charset' else ():
                MAGIC.add((n, c))
    if pt.op == 'str':
        w = pt.a[0]
        if not w:
            raise Nope
        if len(w) == 1:
            for h in holes:
                if mayhave(cls(h), w):
                    raise Nope
        elif all(any(mayhave(cls(h), c) for h in holes) for c in w) and w.isdigit():
            raise Nope
        return lambda s, k: len(w) if s.startswith(w, k) else 0
    if pt.op == 'charset':
        for h in holes:
            for c in pt.a[0]:
                if mayhave(cls(h), c):
                    raise Nope
        return lambda s, k: 1 if s[k] in pt.a[0] else 0
    raise Nope


def cut(ps, i, k, n):
    """parts before and after the match (i, k, n)"""
    s = ps[i].a[0]
    return ps[:i] + [S(s[:k])], [S(s[k + n:])] + ps[i + 1:]


def first(ps, m):
    """leftmost match; only the holes before it must not match.  m: predicate or pattern term"""
    if not isinstance(m, T):
        oc = occurs(ps, m)
        return oc[0] if oc else None
    if m.op == 'str' and len(m.a[0]) != 1:
        oc = occurs(ps, matcher(m, [p for p in ps if cls(p)]))
        return oc[0] if oc else None
    for i, p in enumerate(ps):
        g = matcher(m, [p] if cls(p) else [])
        if p.op == 'str':
            for k in range(len(p.a[0])):
                if g(p.a[0], k):
                    return i, k, 1
    return None


def split(ps, m, limit=None):
    out = []
    cur = list(ps)
    while limit is None or len(out) < limit - 1:
        oc = first(cur, m)
        if not oc:
            break
        i, k, n = oc
        a, b = cut(cur, i, k, n)
        out.append(cat(*a))
        cur = [x for x in b if not (x.op == 'str' and x.a[0] == '')]
    out.append(cat(*cur))
    return out


def norm(ps):
    c = cat(*ps)
    return parts(c)


def trim(x, left=True, right=True, chars=None):
    ps = parts(x)
    if ps is None:
        raise Nope
    chars = chars or WS
    ps = list(ps)
    while left and ps and ps[0].op == 'str':
        s = ps[0].a[0].lstrip(chars)
        if s:
            ps[0] = S(s)
            break
        ps.pop(0)
    while right and ps and ps[-1].op == 'str':
        s = ps[-1].a[0].rstrip(chars)
        if s:
            ps[-1] = S(s)
            break
        ps.pop()
    return cat(*ps)


def streq(a, b):
    """True / False / None: are the two templates equal (holes are generic and distinct)"""
    if a is b:
        return True
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return None
    pa, pb = list(pa), list(pb)
    for end in (0, -1):
        while pa and pb:
            x, y = pa[end], pb[end]
            if x is y:
                pa.pop(end)
                pb.pop(end)
                continue
            if x.op == 'str' and y.op == 'str':
                s, t = x.a[0], y.a[0]
                n = min(len(s), len(t))
                if end == 0:
                    if s[:n] != t[:n]:
                        return False
                    pa[0:1] = [S(s[n:])] if s[n:] else []
                    pb[0:1] = [S(t[n:])] if t[n:] else []
                else:
                    if s[len(s) - n:] != t[len(t) - n:]:
                        return False
                    pa[-1:] = [S(s[:len(s) - n])] if s[:len(s) - n] else []
                    pb[-1:] = [S(t[:len(t) - n])] if t[:len(t) - n] else []
                continue
            break
    if not pa and not pb:
        return True
    if not pa or not pb:
        return False                 # holes and literals are not empty
    ca, cb = [cls(x) for x in pa], [cls(x) for x in pb]
    if 'w' in ca or 'w' in cb:
        for p, q in ((pa, pb), (pb, pa)):
            if len(q) == 1 and q[0].op == 'str':
                if len(p) == 1 and wordname(p[0]) is not None:
                    MAGIC.add((wordname(p[0]), q[0].a[0]))
                elif wordname(p[0]) is not None and str(wordname(p[0])).endswith('.host'):
                    MAGIC.add((wordname(p[0]), q[0].a[0]))
        return False                 # words are generic
    la = [x for x in pa if x.op == 'str']
    lb = [x for x in pb if x.op == 'str']
    if not lb and not la:
        return None
    # a literal without digits can not be matched by numbers and the other way round
    for p, q in ((pa, pb), (pb, pa)):
        if all(x.op == 'str' for x in p):
            lit = ''.join(x.a[0] for x in p)
            if len(q) == 1 and cls(q[0]) and not all(mayhave(cls(q[0]), c) for c in lit):
                return False
            if any(cls(x) for x in q) and not any(any(mayhave(cls(x), c) for x in q if cls(x)) for c in lit):
                return False
    return None


class TModels(Models):
    VMAX = 4096

    def __init__(self, it):
        super().__init__(it)
        _P[0] = self.p
        self.dimpl = {}
        for x in self.p.insts:
            if x['local'] and x['body'] and x['n'].endswith(' as std::fmt::Display>::fmt'):
                self.dimpl[self.p.deref_ty(x['body']['locals'][1])] = x

    # ------------------------------------------------------------ printing
    def disp_multi(self, F, bb, st, x, ty):
        x = self.it.simp(st, self.peel(st, x))
        e = self.deep_ty(ty) if ty is not None else None
        if e is None:
            e = self.it.ty_of(x)
        inst = self.dimpl.get(e)
        if inst is not None and x.op != 'alt':
            self.it.fresh += 1
            cell = ('h', 'fmt%d' % self.it.fresh)
            st.mem[cell] = S('')
            out = []
            for s, r in self.it.run(inst, [self.it.mkbox(x), mk('ref', cell, ())], st,
                                    (F.path if F else ()) + ((F.inst['i'] if F else -1, bb, inst['i']),)):
                v = s.mem.pop(cell)
                if r.op != 'adt' or v is None:
                    raise Undet('result of printing')
                if self.it.vname(r) == 'Ok':
                    out.append((s, v))
            return out
        if x.op in ('hole',):
            return [(st, x)]
        if e is not None and self.p.types[e]['k'] == 'bool' and x.op == 'int':
            return [(st, S('true' if x.a[0] else 'false'))]
        if e is not None and self.p.types[e]['k'] in ('int', 'uint'):
            lo, hi = self.it.iv(st, x)
            if lo == hi:
                return [(st, S(str(lo)))]
        return [(st, self.disp(st, x, ty))]

    def f_new_display(self, F, bb, st, inst, args, t, sp):
        ty = self.deep_ty(self.aty(F, t, inst, 0))
        return [(s, mk('farg', x)) for s, x in self.disp_multi(F, bb, st, args[0], ty)]

    def f_fmt(self, F, bb, st, inst, args, t, sp):
        if 'Debug' in inst['d']:
            return None
        ty = self.deep_ty(self.aty(F, t, inst, 0))
        if inst['local'] and inst['body']:
            ty = self.p.deref_ty(inst['body']['locals'][1])
        out = []
        for s, x in self.disp_multi(F, bb, st, args[0], ty):
            if not self.append_fmt(s, F, args[1], x):
                return None
            out.append((s, self.enum_of(self.dty(F, t, inst), 'Ok', UNIT)))
        return out

    def m_local_display(self, F, bb, st, inst, args, t, sp):
        out = []
        for s, x in self.disp_multi(F, bb, st, args[0], self.p.deref_ty(inst['body']['locals'][1])):
            if not self.append_fmt(s, F, args[1], x):
                return None
            out.append((s, self.enum_of(inst['body']['locals'][0], 'Ok', UNIT)))
        return out

    def f_to_string(self, F, bb, st, inst, args, t, sp):
        ty = self.deep_ty(self.aty(F, t, inst, 0))
        if ty is None:
            ty = self.deep_ty(inst['args'][0]) if inst['args'] else None
        return self.disp_multi(F, bb, st, args[0], ty)

    # ------------------------------------------------------------ strings
    def tm(self, st, a):
        x = self.it.simp(st, self.peel(st, a))
        ps = parts(x)
        if ps is None:
            raise Nope
        return x, ps

    def pat(self, st, a):
        a = self.peel(st, a)
        if a.op == 'hchar':
            return a.a[0]
        return super().pat(st, a)

    def isstr(self, st, F, t, inst, args, i=0):
        aty = self.deep_ty(self.aty(F, t, inst, i))
        return aty is not None and self.isstr_ty(aty)

    def casefold(self, op, s):
        ps = parts(s)
        if ps is None:
            return super().casefold(op, s)
        out = []
        for p in ps:
            if p.op == 'str':
                out.append(S(p.a[0].lower() if op == 'lower' else p.a[0].upper()))
            elif cls(p) in ('n', '4') or p.op == op:
                out.append(p)
            elif cls(p) == '6' and op == 'lower':
                out.append(p)
            else:
                if p.op in ('lower', 'upper'):
                    p = p.a[0]
                out.append(mk(op, p))
        return cat(*out)

    def f_to_lowercase(self, F, bb, st, inst, args, t, sp):
        x = self.peel(st, args[0])
        if x.op == 'hchar':
            return [(st, mk('hchar', self.casefold('lower', x.a[0]), ty=x.ty))]
        if x.op == 'int':
            return [(st, I(ord(chr(x.a[0]).lower())))]
        return super().f_to_lowercase(F, bb, st, inst, args, t, sp)

    f_to_ascii_lowercase = f_to_lowercase

    def tstr(me, dec):
        """string method decided on templates by dec(self, x, ps, rest) -> term"""
        sup = getattr(Models, 'f_' + me)

        def f(self, F, bb, st, inst, args, t, sp):
            try:
                if not self.isstr(st, F, t, inst, args) and self.peel(st, args[0]).op not in ('str', 'cat', 'hole'):
                    raise Nope
                x, ps = self.tm(st, args[0])
                return [(st, dec(self, x, ps, [self.pat(st, a) if i or me not in ('splitn', 'rsplitn') else a
                                               for i, a in enumerate(args[1:])]))]
            except Nope:
                return sup(self, F, bb, st, inst, args, t, sp)
        return f

    f_trim = tstr('trim', lambda s, x, ps, r: s.it.mkbox(trim(x)))
    f_trim_start = tstr('trim_start', lambda s, x, ps, r: s.it.mkbox(trim(x, right=False)))
    f_trim_end = tstr('trim_end', lambda s, x, ps, r: s.it.mkbox(trim(x, left=False)))

    def tmatches(left, right):
        def g(self, x, ps, r):
            if r[0].op == 'str' and len(r[0].a[0]) == 1:
                c = r[0].a[0]
            elif r[0].op == 'charset':
                c = ''.join(r[0].a[0])
            elif r[0].op == 'str' and r[0].a[0]:
                w = r[0].a[0]
                for rev in [False] * left + [True] * right:
                    while self.d_starts(x, ps, r, rev).a[0]:
                        t = ps[-1].a[0][:-len(w)] if rev else ps[0].a[0][len(w):]
                        ps = ps[:-1] + [S(t)] * (t != '') if rev else [S(t)] * (t != '') + ps[1:]
                return self.it.mkbox(cat(*ps))
            else:
                raise Nope
            if any(mayhave(cls(p), ch) for p in ps if cls(p) for ch in c):
                raise Nope
            for p in ps:
                if wordname(p) is not None:
                    MAGIC.update((wordname(p), ch) for ch in c)
            return self.it.mkbox(trim(x, left, right, c))
        return g

    f_trim_matches = tstr('trim_matches', tmatches(True, True))
    f_trim_start_matches = tstr('trim_start_matches', tmatches(True, False))
    f_trim_end_matches = tstr('trim_end_matches', tmatches(False, True))

    def d_contains(self, x, ps, r):
        pt = r[0]
        holes = [p for p in ps if cls(p)]
        pats = [pt.a[0]] if pt.op == 'str' else list(pt.a[0]) if pt.op == 'charset' else None
        if pats is None:
            raise Nope
        if any(musthave(cls(h), w) for h in holes for w in pats):
            return TRUE
        if any(w in p.a[0] for p in ps if p.op == 'str' for w in pats):
            return TRUE
        matcher(pt, holes)
        return FALSE

    def f_contains(self, F, bb, st, inst, args, t, sp):
        it = self.it
        if self.isstr(st, F, t, inst, args):
            try:
                x, ps = self.tm(st, args[0])
                return [(st, self.d_contains(x, ps, [self.pat(st, args[1])]))]
            except Nope:
                return super().f_contains(F, bb, st, inst, args, t, sp)
        v = it.simp(st, self.peel(st, args[0]))
        if v.op == 'arr':
            y = self.peel(st, args[1])
            aty = self.deep_ty(self.aty(F, t, inst, 1))
            res = [self.cmp_terms(st, e, y, aty) for e in v.a]
            tr = [it.truth(st, r) for r in res]
            if any(b == 1 for b in tr):
                return [(st, TRUE)]
            if all(b == 0 for b in tr):
                return [(st, FALSE)]
        return super().f_contains(F, bb, st, inst, args, t, sp)

    def d_starts(self, x, ps, r, rev=False):
        if r[0].op != 'str':
            raise Nope
        w = r[0].a[0]
        if not ps:
            return I(w == '')
        p = ps[-1] if rev else ps[0]
        if p.op == 'str':
            s = p.a[0]
            if len(s) >= len(w):
                return I(s.endswith(w) if rev else s.startswith(w))
            if not (w.endswith(s) if rev else w.startswith(s)):
                return FALSE
            if len(ps) == 1:
                return FALSE
            q = ps[-2] if rev else ps[1]
            if wordname(q) is not None:
                MAGIC.add((wordname(q), w[:len(w) - len(s)] if rev else w[len(s):]))
            c = w[:len(w) - len(s)][-1] if rev else w[len(s):][0]
            if cls(q) and not mayhave(cls(q), c):
                return FALSE
            raise Nope
        if wordname(p) is not None:
            MAGIC.add((wordname(p), w))
        c = w[-1] if rev else w[0]
        if cls(p) == 'w' or not mayhave(cls(p), c):
            return FALSE
        raise Nope

    f_starts_with = tstr('starts_with', d_starts)
    f_ends_with = tstr('ends_with', lambda s, x, ps, r: s.d_starts(x, ps, r, True))

    def f_find(self, F, bb, st, inst, args, t, sp):
        if 'Iterator' in inst['d']:
            return self.iter_find(F, bb, st, inst, args, t, sp)
        dty = self.dty(F, t, inst)
        try:
            x, ps = self.tm(st, args[0])
            pt = self.pat(st, args[1])
            if method(inst['d']) == 'rfind':
                oc = (occurs(ps, matcher(pt, [p for p in ps if cls(p)])) or [None])[-1]
            else:
                oc = first(ps, pt)
            if not oc:
                return [(st, self.enum_of(dty, 'None'))]
            i, k, n = oc
            return [(st, self.enum_of(dty, 'Some', self.it.len_(cat(*cut(ps, i, k, n)[0]))))]
        except Nope:
            pass
        try:
            x, ps = self.tm(st, args[0])
            if self.d_contains(x, ps, [self.pat(st, args[1])]) is TRUE:
                return [(st, self.enum_of(dty, 'Some', mk('findpos', x, self.pat(st, args[1]), method(inst['d']),
                                                          ty=self.payload_ty(dty, 'Some'))))]
        except Nope:
            pass
        return super().f_find(F, bb, st, inst, args, t, sp)

    f_rfind = f_find

    def f_strip_prefix(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        rev = method(inst['d']) == 'strip_suffix'
        try:
            x, ps = self.tm(st, args[0])
            pt = self.pat(st, args[1])
            b = self.d_starts(x, ps, [pt], rev)
            if b is FALSE:
                return [(st, self.enum_of(dty, 'None'))]
            n = len(pt.a[0])
            if rev:
                rest = ps[:-1] + [S(ps[-1].a[0][:len(ps[-1].a[0]) - n])]
            else:
                rest = [S(ps[0].a[0][n:])] + ps[1:]
            return [(st, self.enum_of(dty, 'Some', self.it.mkbox(cat(*rest))))]
        except Nope:
            return super().f_strip_prefix(F, bb, st, inst, args, t, sp)

    f_strip_suffix = f_strip_prefix

    def f_split_once(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        try:
            x, ps = self.tm(st, args[0])
            pt = self.pat(st, args[1])
            if method(inst['d']) == 'rsplit_once':
                oc = (occurs(ps, matcher(pt, [p for p in ps if cls(p)])) or [None])[-1]
            else:
                oc = first(ps, pt)
            if not oc:
                return [(st, self.enum_of(dty, 'None'))]
            a, b = cut(ps, *oc)
            bx = self.it.mkbox
            return [(st, self.enum_of(dty, 'Some', mk('tup', bx(cat(*a)), bx(cat(*b)))))]
        except Nope:
            if method(inst['d']) == 'rsplit_once':
                return None
            return super().f_split_once(F, bb, st, inst, args, t, sp)

    f_rsplit_once = f_split_once

    def strs(self, xs):
        return mk('iter', mk('arr', *[self.it.mkbox(x) for x in xs]), I(0))

    def d_split(self, x, ps, r):
        return self.strs(split(ps, matcher(r[0], [p for p in ps if cls(p)])))

    def lim(self, x, ps, r, rev=False):
        if r[0].op != 'int':
            raise Nope
        n = r[0].a[0]
        m = r[1]
        if rev:
            m = matcher(r[1], [p for p in ps if cls(p)])
            al = split(ps, m)
            if len(al) > n:
                # re-join the front with the separator text between the pieces
                if r[1].op != 'str':
                    raise Nope
                k = len(al) - n + 1
                front = []
                for i, y in enumerate(al[:k]):
                    if i:
                        front.append(r[1])
                    front.append(y)
                al = [cat(*front)] + al[k:]
            return self.strs(list(reversed(al)))
        return self.strs(split(ps, m, n))

    f_split = tstr('split', d_split)
    f_rsplit = tstr('rsplit', lambda s, x, ps, r: s.strs(list(reversed(split(ps, matcher(r[0], [p for p in ps if cls(p)]))))))
    f_splitn = tstr('splitn', lim)
    f_rsplitn = tstr('rsplitn', lambda s, x, ps, r: s.lim(x, ps, r, True))

    def d_ws(self, x, ps, r):
        def m(s, k):
            n = 0
            while k + n < len(s) and s[k + n] in WS:
                n += 1
            return n
        return self.strs([y for y in split(ps, m) if not (y.op == 'str' and not y.a[0])])

    f_split_whitespace = tstr('split_whitespace', d_ws)
    f_split_ascii_whitespace = f_split_whitespace

    def d_lines(self, x, ps, r):
        al = split(ps, lambda s, k: 1 if s[k] == '\n' else 0)
        if al and al[-1] is S(''):
            al.pop()
        out = []
        for y in al:
            z = parts(y)
            if z and z[-1].op == 'str' and z[-1].a[0].endswith('\r'):
                y = cat(*(z[:-1] + [S(z[-1].a[0][:-1])]))
            out.append(y)
        return self.strs(out)

    f_lines = tstr('lines', d_lines)

    def d_term(self, x, ps, r):
        al = split(ps, matcher(r[0], [p for p in ps if cls(p)]))
        if al and al[-1] is S(''):
            al.pop()
        return self.strs(al)

    f_split_terminator = tstr('split_terminator', d_term)

    def d_chars(self, x, ps, r):
        cty = self.p.find_ty(lambda k: k['k'] == 'char')
        out = []
        for p in ps:
            if p.op == 'str':
                out.extend(I(ord(c)) for c in p.a[0])
            else:
                out.append(mk('hchar', p, ty=cty))
        return mk('iter', mk('arr', *out), I(0))

    f_chars = tstr('chars', d_chars)

    def hpred(me, f):
        def g(self, F, bb, st, inst, args, t, sp):
            x = self.peel(st, args[0])
            if x.op == 'int':
                return [(st, I(f(chr(x.a[0])) if 0 <= x.a[0] < 0x110000 else 0))]
            if x.op == 'hchar':
                c = cls(x.a[0])
                if c == 'w':
                    return [(st, I({'is_whitespace': 0, 'is_alphanumeric': 1, 'is_ascii_alphanumeric': 1, 'is_ascii': 1,
                                    'is_control': 0, 'is_ascii_whitespace': 0, 'is_ascii_control': 0, 'is_ascii_punctuation': 0,
                                    'is_ascii_graphic': 1}.get(me, 0)))] \
                        if me not in ('is_ascii_digit', 'is_numeric', 'is_ascii_alphabetic', 'is_alphabetic', 'is_ascii_lowercase',
                                      'is_ascii_uppercase', 'is_lowercase', 'is_uppercase', 'is_ascii_hexdigit') else None
                vs = {f(ch) for ch in '0123456789abcdefABCDEF:.' if mayhave(c, ch)}
                if len(vs) == 1:
                    return [(st, I(vs.pop()))]
            return None
        return g

    f_is_whitespace = hpred('is_whitespace', lambda c: c in WS)
    f_is_ascii_whitespace = f_is_whitespace
    f_is_ascii_digit = hpred('is_ascii_digit', lambda c: c in '0123456789')
    f_is_numeric = hpred('is_numeric', lambda c: c.isnumeric())
    f_is_alphanumeric = hpred('is_alphanumeric', lambda c: c.isalnum())
    f_is_ascii_alphanumeric = hpred('is_ascii_alphanumeric', lambda c: c.isascii() and c.isalnum())
    f_is_alphabetic = hpred('is_alphabetic', lambda c: c.isalpha())
    f_is_ascii_alphabetic = hpred('is_ascii_alphabetic', lambda c: c.isascii() and c.isalpha())
    f_is_ascii_hexdigit = hpred('is_ascii_hexdigit', lambda c: c in HEX)
    f_is_ascii = hpred('is_ascii', lambda c: c.isascii())
    f_is_control = hpred('is_control', lambda c: ord(c) < 32 or ord(c) == 127)
    f_is_ascii_punctuation = hpred('is_ascii_punctuation', lambda c: c.isascii() and not c.isalnum() and 32 < ord(c) < 127)
    f_is_ascii_graphic = hpred('is_ascii_graphic', lambda c: 32 < ord(c) < 127)

    # ------------------------------------------------------------ floats
    def fpred(lit, generic):
        def f(self, F, bb, st, inst, args, t, sp):
            x = self.peel(st, args[0])
            if x.op == 'flt':
                return [(st, I(int(lit(x.a[0]))))]
            if x.op == 'opq' and generic is not None:
                return [(st, I(generic))]      # float holes are finite and not negative
            return None
        return f

    f_is_nan = fpred(lambda v: v != v, 0)
    f_is_infinite = fpred(lambda v: v in (float('inf'), float('-inf')), 0)
    f_is_finite = fpred(lambda v: v == v and abs(v) != float('inf'), 1)
    f_is_sign_negative = fpred(lambda v: str(v).startswith('-'), 0)
    f_is_sign_positive = fpred(lambda v: not str(v).startswith('-'), 1)
    f_is_normal = fpred(lambda v: v == v and abs(v) > 1e-300 and abs(v) != float('inf'), None)

    def order(self, F, st, args, t, op, inst=None):
        # logging is off (that it has no other effect is C04)
        for x in args:
            y = self.peel(st, x)
            if y.op == 'opq' and y.a[0] == 'log_max_level' or y.op == 'adt' and '::log::Level' in self.p.types[y.a[0]]['n']:
                return FALSE
        a, b = self.peel(st, args[0]), self.peel(st, args[1])
        if a.op == 'flt' and b.op == 'flt':
            a, b = a.a[0], b.a[0]
            return I(int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]))
        return super().order(F, st, args, t, op, inst)

    def cmp_terms(self, st, a, b, aty):
        x, y = self.peel(st, a), self.peel(st, b)
        if x.op == 'flt' and y.op == 'flt':
            return I(int(x.a[0] == y.a[0]))
        return super().cmp_terms(st, a, b, aty)

    def ip_is(v):
        def f(self, F, bb, st, inst, args, t, sp):
            x = self.peel(st, args[0])
            if x.op == 'adt' and self.p.types[x.a[0]]['n'].startswith('std::net::IpAddr'):
                return [(st, I(int(self.p.types[x.a[0]]['v'][x.a[1]]['n'] == v)))]
        return f

    f_is_ipv4, f_is_ipv6 = ip_is('V4'), ip_is('V6')

    def f_eq(self, F, bb, st, inst, args, t, sp):
        a, b = self.peel(st, args[0]), self.peel(st, args[1])
        if a.op == 'arr' and b.op == 'arr':
            return self.eq_lists(F, bb, st, inst, a, b, t, sp)
        return super().f_eq(F, bb, st, inst, args, t, sp)

    def eq_lists(self, F, bb, st, inst, a, b, t, sp):
        it = self.it
        if len(a.a) != len(b.a):
            return [(st, FALSE)]
        live, done = [st], []
        for x, y in zip(a.a, b.a):
            nxt = []
            for s in live:
                x, y = self.peel(s, x), self.peel(s, y)
                if x.op == 'arr' and y.op == 'arr':
                    rs = self.eq_lists(F, bb, s, inst, x, y, t, sp)
                else:
                    ty = x.a[0] if x.op == 'adt' else it.ty_of(x) or it.ty_of(y)
                    rs = self.local_eq(F, bb, s, inst, [x, y], t, sp, ty) if ty is not None else None
                    if rs is None:
                        if x.op == 'int' and y.op == 'int':
                            rs = [(s, it.b_eq(x, y))]
                        else:
                            rs = [(s, self.cmp_terms(s, x, y, ty))]
                for s2, v in rs:
                    for s3, w in self.split_bool(s2, v):
                        (nxt if w else done).append(s3)
            live = nxt
        return [(s, TRUE) for s in live] + [(s, FALSE) for s in done]

    def f_partial_cmp(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        x, y = self.peel(st, args[0]), self.peel(st, args[1])
        if x.op not in ('flt', 'int') or y.op != x.op:
            return None
        a, b = x.a[0], y.a[0]
        k = self.p.types[dty]
        names = [v['n'] for v in k['v']]
        oty = self.payload_ty(dty, 'Some') if 'Some' in names else dty
        if a != a or b != b:
            return [(st, self.enum_of(dty, 'None'))]
        o = self.enum_of(oty, 'Less' if a < b else 'Greater' if a > b else 'Equal')
        return [(st, o if oty == dty else self.enum_of(dty, 'Some', o))]

    f_cmp = f_partial_cmp

    # ------------------------------------------------------------ parsing of leaves
    def guess(self, F, bb, st, s, dty, sp, extra):
        """both outcomes of a parse nothing is known about; the paths are not precise"""
        outs = super().parse_out(F, bb, st, s, dty, sp, extra)
        k = mk('opq', ('parses', s, dty))
        for i, (s2, _) in enumerate(outs):
            s2.facts[k] = ('iv', 1 - i, 1 - i)
        return outs

    def parse_out(self, F, bb, st, s, dty, sp, extra=()):
        it = self.it
        s = it.simp(st, s)
        okty, erty = self.payload_ty(dty, 'Ok'), self.payload_ty(dty, 'Err')
        ps = parts(s)
        k = self.p.types[okty] if okty is not None else None
        if ps is None or k is None:
            return self.guess(F, bb, st, s, dty, sp, extra)
        ok = lambda v: [(st, self.enum_of(dty, 'Ok', v))]
        er = [(st, self.enum_of(dty, 'Err', mk('parseerr', s, okty, ty=erty)))]
        lit = ''.join(p.a[0] for p in ps) if all(p.op == 'str' for p in ps) else None
        if k['k'] in ('int', 'uint'):
            radix = extra[0].a[0] if extra and extra[0].op == 'int' else 10
            lo, hi = self.p.int_range(okty)
            if lit is not None:
                body = lit[1:] if lit[:1] in ('+', '-') and len(lit) > 1 and (lit[0] == '+' or lo < 0) else lit
                try:
                    if not body or not all(c.isascii() and c.isalnum() for c in body):
                        raise ValueError
                    v = int(body, radix)
                    if lit[0] == '-':
                        v = -v
                except ValueError:
                    return er
                return ok(I(v)) if lo <= v <= hi else er
            if len(ps) == 1:
                p = ps[0]
                c = cls(p)
                x = None
                if c == 'n' and radix == 10:
                    x = p.a[0] if p.op == 'disp' else p.a[0].a[0] if p.op == 'spec' and p.a[0].op == 'disp' else None
                elif c == 'h' and radix == 16:
                    y = p
                    while y.op in ('spec', 'lower', 'upper'):
                        y = y.a[0]
                    x = y.a[0] if y.op == 'hex' else None
                if x is not None:
                    out = []
                    a = it.iv(st, x)
                    if not (lo <= a[0] and a[1] <= hi):
                        s2 = st.copy()
                        out.append((s2, self.enum_of(dty, 'Err', mk('parseerr', s, okty, ty=erty))))
                    try:
                        it.meet_iv(st, x, lo, hi)
                        out.insert(0, (st, self.enum_of(dty, 'Ok', x)))
                    except Dead:
                        pass
                    return out
                if c in ('w', '4', '6') and radix == 10:
                    return er
            for p in ps:
                if p.op == 'str' and not all(ch.isalnum() and ch.isascii() for ch in p.a[0].lstrip('+-')):
                    return er
                if cls(p) == 'w' and radix == 10 or cls(p) in ('4', '6'):
                    return er
                if p.op == 'str' and radix == 10 and any(ch.isalpha() for ch in p.a[0]):
                    return er
            return self.guess(F, bb, st, s, dty, sp, extra)
        if k['k'] == 'bool':
            if lit in ('true', 'false'):
                return ok(I(int(lit == 'true')))
            return er if lit is not None or all(cls(p) for p in ps) else self.guess(F, bb, st, s, dty, sp, extra)
        if k['k'] == 'char' and lit is not None:
            return ok(I(ord(lit))) if len(lit) == 1 else er
        if k['k'] == 'adt' and k['n'].endswith('string::String'):
            return ok(s)
        if k['k'] == 'float':
            if lit is not None:
                try:
                    float(lit)
                    if lit != lit.strip() or '_' in lit:
                        raise ValueError
                    return ok(fconst(lit, k['n']))
                except ValueError:
                    return er
            if len(ps) == 1 and cls(ps[0]) == 'f' and ps[0].op == 'disp':
                if self.p.types[ps[0].a[1]] == k or ps[0].a[1] == okty:
                    return ok(ps[0].a[0])
                return ok(mk('fconv', ps[0].a[0], okty))
            if len(ps) == 1 and cls(ps[0]) == 'n' and ps[0].op == 'disp':
                return ok(mk('fconv', ps[0].a[0], okty))
            if any(cls(p) in ('w', '4', '6') for p in ps):
                return er
            if any(p.op == 'str' and not all(c in '0123456789.+-eE' for c in p.a[0]) for p in ps):
                return er
            if len([p for p in ps if cls(p)]) > 1 and any(p.op == 'str' and p.a[0][0] in '-' for p in ps):
                return er
            return self.guess(F, bb, st, s, dty, sp, extra)
        if k['k'] == 'adt':
            n = short(k['n'])
            if n in ('IpAddr', 'Ipv4Addr', 'Ipv6Addr'):
                if len(ps) == 1 and cls(ps[0]) in ('4', '6'):
                    v = ps[0].a[0]
                    fam = cls(ps[0])
                    if n == 'IpAddr':
                        if v.op == 'adt' and v.a[0] == okty:
                            return ok(v)
                        return ok(it.adt(okty, 0 if fam == '4' else 1, v))
                    if (n == 'Ipv4Addr') == (fam == '4'):
                        return ok(v.a[2] if v.op == 'adt' and len(v.a) == 3 else v)
                    return er
                if lit is None:
                    if any(cls(p) == 'w' for p in ps) or any(p.op == 'str' and not all(c in HEX + ':.' for c in p.a[0])
                                                             for p in ps):
                        return er
                elif not all(c in HEX + ':.' for c in lit):
                    return er
            if lit is not None and n in ('IpAddr', 'Ipv4Addr', 'Ipv6Addr', 'Host'):
                try:
                    ip = ipaddress.ip_address(lit if n != 'Host' or lit[:1] != '[' else lit[1:-1])
                    if n == 'Host' and (ip.version == 6) != (lit[:1] == '[') or '%' in lit:
                        raise ValueError
                except ValueError:
                    if n != 'Host':
                        return er
                else:
                    aty = self.ipty(ip.version)
                    if aty is not None and (n in ('IpAddr', 'Host') or n == 'Ipv%dAddr' % ip.version):
                        v = mk('opq', 'ip!' + str(ip), ty=aty)
                        if n == 'IpAddr':
                            return ok(it.adt(okty, 0 if ip.version == 4 else 1, v))
                        if n == 'Host':
                            return ok(it.adt(okty, [w['n'] for w in k['v']].index('Ipv%d' % ip.version), v))
                        return ok(v)
                    if aty is not None:
                        return er
            if n == 'Host' and lit is not None and re.fullmatch(r'[a-z0-9]([a-z0-9-]*[a-z0-9])?(\.[a-z0-9]([a-z0-9-]*[a-z0-9])?)*', lit) and \
                    'xn--' not in lit and not re.fullmatch(r'\d+|0x[0-9a-f]*', lit.split('.')[-1]):
                return ok(it.adt(okty, [v['n'] for v in k['v']].index('Domain'), s))
            if n == 'Host':
                names = [v['n'] for v in k['v']]
                if len(ps) == 1 and cls(ps[0]) == '4':
                    v = ps[0].a[0]
                    v = v.a[2] if v.op == 'adt' and len(v.a) == 3 else v
                    return ok(it.adt(okty, names.index('Ipv4'), v))
                if any(cls(p) == 'w' for p in ps) and all(cls(p) in ('w', 'n') or p.op == 'str' and
                                                          all(c.isalnum() or c in '.-' for c in p.a[0]) for p in ps):
                    # host names are lower-cased by the url crate; words are taken lower-case
                    return ok(it.adt(okty, names.index('Domain'), s))
                if any(p.op == 'str' and any(c in ' /#?@<>\\^|%' for c in p.a[0]) for p in ps) or cls(ps[0]) == '6':
                    return er
        return self.guess(F, bb, st, s, dty, sp, extra)

    def ipty(self, v):
        for i, t in self.p.types.items():
            if t['k'] == 'adt' and t['n'].endswith('::Ipv%dAddr' % v):
                return i
        return None

    def padded(self, p):
        """a literal under a format specification whose effect is known"""
        x = p.a[0]
        if any(e[:1] == 'k' for e in p.a[1].split(',')):
            return None
        fl, w = specof(p.a[1])
        pr = next((int(e[1:]) for e in p.a[1].split(',') if e[:1] == 'p'), None)
        fl = fl or 0x60000020
        x2 = S(format(x.a[0].a[0], x.a[1])) if x.op == 'hex' and x.a[0].op == 'int' and x.a[0].a[0] >= 0 else x
        if x2.op != 'str':
            return None
        s = x2.a[0]
        pre = ''
        if fl & 1 << 23 and x2 is not x:
            pre = '0x'
        elif fl & 1 << 23:
            return None
        if fl & 1 << 21:
            if not s.isdigit():
                return None
            pre = '+'
        if pr is not None:
            if x2 is not x or s.replace('.', '').lstrip('-').isdigit():
                return None
            s = s[:pr]
        if not w or len(pre + s) >= w:
            return S(pre + s)
        if fl & 1 << 24:
            return S(pre + s.rjust(w - len(pre), '0')) if s.isdigit() or x2 is not x else None
        al = fl >> 29 & 3
        fill = chr(fl & 0x1fffff)
        if al == 3:
            # numbers are set to the right, other text to the left
            if x2 is x and s.lstrip('-').isdigit():
                return None
            al = 1 if x2 is not x else 0
        n = w - len(pre + s)
        lft = {0: 0, 1: n, 2: n // 2}[al]
        return S(fill * lft + pre + s + fill * (n - lft))

    def template(self, st, tpl, args):
        def f(p):
            y, w = p, 0
            if p.op == 'spec':
                q = self.padded(p)
                if q is not None:
                    return q
            if y.op == 'spec':
                if cls(y) is None and y.a[0].op != 'hex' or specof(y.a[1])[0] & (1 << 21 | 1 << 23):
                    return p
                w = specof(y.a[1])[1]
                if w and not specof(y.a[1])[0] & 1 << 24:
                    return p
                y = y.a[0]
            if y.op == 'hex' and y.a[0].op == 'int' and y.a[0].a[0] >= 0:
                return S(format(y.a[0].a[0], y.a[1]).rjust(w, '0'))
            return p
        r = super().template(st, tpl, args)
        return cat(*[f(p) for p in r.a]) if r.op == 'cat' else f(r)

    def disp(self, st, x, ty):
        y = self.peel(st, x)
        if y.op == 'opq' and y.a[0].startswith('ip!'):
            return S(ipshow(y.a[0][3:]))
        if y.op == 'adt' and len(y.a) == 3 and y.a[2].op == 'opq' and y.a[2].a[0].startswith('ip!'):
            return S(ipshow(y.a[2].a[0][3:]))
        return super().disp(st, x, ty)

    # ------------------------------------------------------------ slicing
    def f_index(self, F, bb, st, inst, args, t, sp):
        it = self.it
        v = it.simp(st, self.peel(st, args[0]))
        if v.op in ('str', 'cat') or cls(v):
            ps = parts(v)
            rg = self.range_of(args[1])
            if ps is not None and rg is not None:
                r = self.slice_t(st, ps, *rg)
                if r is not None:
                    return [(st, it.mkbox(r))]
        if v.op == 'arr':
            rg = self.range_of(args[1])
            if rg is not None:
                a = 0 if rg[0] is None else rg[0].a[0] if rg[0].op == 'int' else None
                b = len(v.a) if rg[1] is None else rg[1].a[0] if rg[1].op == 'int' else None
                if a is not None and b is not None and 0 <= a <= b <= len(v.a):
                    return [(st, it.mkbox(mk('arr', *v.a[a:b])))]
        return super().f_index(F, bb, st, inst, args, t, sp)

    def slice_t(self, st, ps, a, b):
        it = self.it
        lo = hi = None
        cuts = list(prefixes(ps))
        n = it.len_(cat(*ps))
        for i, (p, q) in enumerate(cuts):
            ln = it.len_(cat(*p))
            if a is None and i == 0 or a is not None and (ln is a or it.sub(ln, a) is I(0)):
                lo = i
            if b is not None and (ln is b or it.sub(ln, b) is I(0)) or b is None and i == len(cuts) - 1:
                hi = i
        if lo is None or hi is None or lo > hi:
            return None
        whole = cuts[hi][0]
        # parts of `whole` after dropping the prefix cuts[lo]
        pre = cat(*cuts[lo][0])
        for p, q in prefixes(norm(whole) or []):
            if cat(*p) is pre:
                return cat(*q)
        return None

    def f_split_at(self, F, bb, st, inst, args, t, sp):
        try:
            x, ps = self.tm(st, args[0])
            a, b = self.slice_t(st, ps, None, args[1]), self.slice_t(st, ps, args[1], None)
            if a is not None and b is not None:
                return [(st, mk('tup', self.it.mkbox(a), self.it.mkbox(b)))]
        except Nope:
            pass
        return None

    # ------------------------------------------------------------ lists of known length
    def conc(self, st, itv):
        """elements of an iterator over a list of known length, or None"""
        it = self.it
        itv = it.simp(st, itv)
        if itv.op == 'adt' and short(self.p.types[itv.a[0]]['n']) == 'Option':
            return list(itv.a[2:])
        if itv.op == 'adt':
            return self.optiter(itv)
        if itv.op == 'arr':
            return list(itv.a)
        if itv.op != 'iter' or itv.a[1].op != 'int':
            return None
        xs = self.conc_stream(st, itv.a[0])
        return None if xs is None else xs[itv.a[1].a[0]:]

    def conc_stream(self, st, s):
        it = self.it
        s0 = s
        if s.op == 'arr':
            return list(s.a)
        if s.op == 'refs':
            v = it.simp(st, s.a[0])
            if v.op == 'arr':
                return [it.mkbox(x) for x in v.a]
        if s.op == 'mrefs':
            v = it.simp(st, s.a[0])
            if v.op == 'arr':
                return [mk('ref', s.a[1], s.a[2] + (('i', I(i), None),)) for i in range(len(v.a))]
        if s.op == 'slice' and s.a[1].op == 'int':
            xs = self.conc_stream(st, s.a[0])
            if xs is not None and s.a[2] is None:
                return xs[s.a[1].a[0]:]
            if xs is not None and s.a[2].op == 'int':
                return xs[s.a[1].a[0]:s.a[2].a[0]]
        if s.op == 'bytes_':
            return [I(b) for b in s.a[0]]
        return None

    def lst(self, xs):
        return mk('iter', mk('arr', *xs), I(0))

    def each(self, F, bb, st, xs, clo, stop=None, byref=False):
        """[(state, [results])]: the closure on every element in order; stop(state, r) ends the pass"""
        work = [(st, [])]
        done = []
        for x in xs:
            nxt = []
            for s, rs in work:
                for s2, r in self.it.call_value(F, bb, s, clo, [self.it.mkbox(x) if byref else x], None, None):
                    r = self.it.simp(s2, r)
                    if stop and stop(s2, r):
                        done.append((s2, rs + [r]))
                    else:
                        nxt.append((s2, rs + [r]))
            work = nxt
            if len(work) + len(done) > self.it.maxstates:
                raise Undet('too many paths')
        return done + work

    def bools(self, st, c):
        r = self.it.truth(st, c)
        if r is not None:
            return [(st, bool(r))]
        return self.split_bool(st, c)

    def cad(op, me):
        sup = getattr(Models, 'f_' + me)

        def f(self, F, bb, st, inst, args, t, sp):
            it = self.it
            if 'Iterator' not in inst['d'] and args[0].op != 'iter':
                return None
            src = args[0]
            if src.op == 'ref':
                src = self.getcell(st, self.cell_of(st, src)) if op not in ('take', 'takewhile') else src
            xs = self.conc(st, src)
            if xs is None and args[0].op == 'adt' and short(self.p.types[args[0].a[0]]['n']) in ('Range', 'RangeInclusive'):
                lo, hi = args[0].a[2], args[0].a[3]
                if lo.op == 'int' and hi.op == 'int' and hi.a[0] - lo.a[0] < 64:
                    xs = [I(i) for i in range(lo.a[0], hi.a[0] + (short(self.p.types[args[0].a[0]]['n']) != 'Range'))]
            if xs is None:
                return sup(self, F, bb, st, inst, args, t, sp)
            out = []
            if op == 'map':
                return [(s, self.lst(rs)) for s, rs in self.each(F, bb, st, xs, args[1])]
            if op in ('filter', 'takewhile', 'skipwhile'):
                work = [(st, [], False)]
                for x in xs:
                    nxt = []
                    for s, ks, fin in work:
                        if fin and op == 'takewhile':
                            nxt.append((s, ks, fin))
                            continue
                        if fin and op == 'skipwhile':
                            nxt.append((s, ks + [x], fin))
                            continue
                        for s2, r in it.call_value(F, bb, s, args[1], [it.mkbox(x)], None, None):
                            for s3, b in self.bools(s2, it.simp(s2, r)):
                                if op == 'filter':
                                    nxt.append((s3, ks + [x] if b else ks, False))
                                elif op == 'takewhile':
                                    nxt.append((s3, ks + [x] if b else ks, not b))
                                else:
                                    nxt.append((s3, ks if b else ks + [x], not b))
                    work = nxt
                    if len(work) > it.maxstates:
                        raise Undet('too many paths')
                return [(s, self.lst(ks)) for s, ks, _ in work]
            if op in ('filtmap', 'mapwhile'):
                for s, rs in self.each(F, bb, st, xs, args[1]):
                    ks = []
                    for r in rs:
                        if r.op != 'adt':
                            raise Undet('filter_map result')
                        if it.vname(r) == 'Some':
                            ks.append(r.a[2])
                        elif op == 'mapwhile':
                            break
                    out.append((s, self.lst(ks)))
                return out
            if op in ('flatmap', 'flatten'):
                rss = self.each(F, bb, st, xs, args[1]) if op == 'flatmap' else [(st, xs)]
                for s, rs in rss:
                    ks = []
                    for r in rs:
                        y = self.flat_items(s, r)
                        if y is None:
                            raise Undet('flat_map result')
                        ks.extend(y)
                    out.append((s, self.lst(ks)))
                return out
            if op == 'enum':
                return [(st, self.lst([mk('tup', I(i), x) for i, x in enumerate(xs)]))]
            if op == 'rev':
                return [(st, self.lst(list(reversed(xs))))]
            if op in ('skip', 'take'):
                if args[1].op != 'int':
                    raise Undet('skip/take')
                n = args[1].a[0]
                return [(st, self.lst(xs[n:] if op == 'skip' else xs[:n]))]
            if op in ('chain', 'zip'):
                ys = self.conc(st, self.to_iter(st, args[1], self.aty(F, t, inst, 1)))
                if ys is None:
                    return sup(self, F, bb, st, inst, args, t, sp)
                if op == 'chain':
                    return [(st, self.lst(xs + ys))]
                return [(st, self.lst([mk('tup', a, b) for a, b in zip(xs, ys)]))]
            return sup(self, F, bb, st, inst, args, t, sp)
        return f

    f_map = cad('map', 'map')
    f_filter = cad('filter', 'filter')
    f_filter_map = cad('filtmap', 'filter_map')
    f_flat_map = cad('flatmap', 'flat_map')
    f_enumerate = cad('enum', 'enumerate')
    f_rev = cad('rev', 'rev')
    f_skip = cad('skip', 'skip')
    f_take = cad('take', 'take')
    f_take_while = cad('takewhile', 'take_while')
    f_skip_while = cad('skipwhile', 'skip_while')
    f_chain = cad('chain', 'chain')
    f_zip = cad('zip', 'zip')
    f_flatten = cad('flatten', 'flatten')
    f_map_while = cad('mapwhile', 'map_while')

    def flat_items(self, s, r):
        it = self.it
        v = it.simp(s, self.peel1(s, r)) if r.op in ('box', 'ref') else r
        if v.op == 'adt' and it.vname(v) in ('Some', 'Ok', 'None', 'Err') and short(self.p.types[v.a[0]]['n']) in ('Option', 'Result'):
            if it.vname(v) in ('None', 'Err'):
                return []
            return [v.a[2] if v is r else it.mkbox(v.a[2])]
        if v.op == 'rep' and v.a[1].op == 'int' and v.a[1].a[0] < 256:
            return [v.a[0]] * v.a[1].a[0]
        return self.conc(s, self.to_iter(s, r, it.ty_of(r)))

    def f_copied(self, F, bb, st, inst, args, t, sp):
        xs = self.conc(st, args[0]) if args[0].op == 'iter' else None
        if xs is None:
            return super().f_copied(F, bb, st, inst, args, t, sp)
        return [(st, self.lst([self.peel1(st, x) for x in xs]))]

    f_cloned = f_copied

    def peel1(self, st, x):
        if x.op == 'box':
            return x.a[0]
        if x.op == 'ref':
            return self.it.read_path(st, x.a[0], x.a[1])
        return self.it.deref(st, x)

    def collect_list(self, F, bb, st, itv):
        xs = self.conc(st, itv)
        if xs is not None:
            return mk('arr', *xs), []
        return super().collect_list(F, bb, st, itv)

    def f_collect(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        k = self.p.types[dty]
        nm = short(k['n']) if k['k'] == 'adt' else k['k']
        xs = self.conc(st, args[0])
        if xs is None:
            if nm in ('Result', 'Option'):
                raise Undet('collect of an undetermined stream')
            return super().f_collect(F, bb, st, inst, args, t, sp)
        if nm == 'Vec':
            return [(st, mk('arr', *xs))]
        if nm == 'String':
            return [(st, cat(*[self.pat(st, x) for x in xs]))]
        if nm in ('Result', 'Option'):
            good = 'Ok' if nm == 'Result' else 'Some'
            gty = self.payload_ty(dty, good)
            vals = []
            for x in xs:
                x = self.it.simp(st, x)
                if x.op != 'adt':
                    raise Undet('collect of undetermined results')
                if self.it.vname(x) != good:
                    return [(st, self.enum_of(dty, 'Err', x.a[2]) if nm == 'Result' else self.enum_of(dty, 'None'))]
                vals.append(x.a[2])
            ek = self.p.types[gty]
            en = short(ek['n']) if ek['k'] == 'adt' else ek['k']
            v = mk('arr', *vals) if en == 'Vec' else cat(*[self.pat(st, x) for x in vals]) if en == 'String' else \
                mk('coll', mk('arr', *vals), ty=gty)
            return [(st, self.enum_of(dty, good, v))]
        return super().f_collect(F, bb, st, inst, args, t, sp)

    def src_iter(self, st, a):
        """(cell or None, elements)"""
        cp = self.cell_of(st, a) if a.op == 'ref' else None
        v = self.getcell(st, cp) if cp is not None else a
        return cp, v, self.conc(st, v)

    def optiter(self, v):
        """the standard library's iterator over an Option (read from its own MIR) -> elements"""
        while v.op == 'adt' and short(self.p.types[v.a[0]]['n']) in ('Iter', 'IntoIter', 'Item', 'IterMut') and \
                'option' in self.p.types[v.a[0]]['n'] and len(v.a) == 3:
            v = v.a[2]
        if v.op == 'adt' and short(self.p.types[v.a[0]]['n']) == 'Option':
            return list(v.a[2:])
        return None

    def cquant(op):
        sup = getattr(Models, 'f_' + op)

        def f(self, F, bb, st, inst, args, t, sp):
            cp, v, xs = self.src_iter(st, args[0])
            if xs is None:
                return sup(self, F, bb, st, inst, args, t, sp)
            out = []
            work = [st]
            for i, x in enumerate(xs):
                nxt = []
                for s in work:
                    for s2, r in self.it.call_value(F, bb, s, args[1], [x], None, None):
                        for s3, b in self.bools(s2, self.it.simp(s2, r)):
                            if b == (op == 'any'):
                                if cp is not None:
                                    self.setcell(s3, F, cp, self.lst(xs[i + 1:]))
                                out.append((s3, TRUE if op == 'any' else FALSE))
                            else:
                                nxt.append(s3)
                work = nxt
            for s in work:
                if cp is not None:
                    self.setcell(s, F, cp, self.lst([]))
                out.append((s, FALSE if op == 'any' else TRUE))
            return out
        return f

    f_all = cquant('all')
    f_any = cquant('any')

    def iter_find(self, F, bb, st, inst, args, t, sp):
        it = self.it
        cp, v, xs = self.src_iter(st, args[0])
        if xs is None:
            return super().iter_find(F, bb, st, inst, args, t, sp)
        dty = self.dty(F, t, inst)
        me = method(inst['d'])
        out = []
        work = [st]
        for i, x in enumerate(xs):
            nxt = []
            for s in work:
                a = x if me in ('position', 'find_map') else it.mkbox(x)
                for s2, r in it.call_value(F, bb, s, args[1], [a], None, None):
                    r = it.simp(s2, r)
                    if me == 'find_map':
                        if r.op != 'adt':
                            raise Undet('find_map')
                        hits = [(s2, it.vname(r) == 'Some')]
                    else:
                        hits = self.bools(s2, r)
                    for s3, b in hits:
                        if b:
                            if cp is not None:
                                self.setcell(s3, F, cp, self.lst(xs[i + 1:]))
                            out.append((s3, r if me == 'find_map' else
                                        self.enum_of(dty, 'Some', I(i) if me == 'position' else x)))
                        else:
                            nxt.append(s3)
            work = nxt
        for s in work:
            if cp is not None:
                self.setcell(s, F, cp, self.lst([]))
            out.append((s, self.enum_of(dty, 'None')))
        return out

    f_position = iter_find
    f_find_map = iter_find

    def f_for_each(self, F, bb, st, inst, args, t, sp):
        cp, v, xs = self.src_iter(st, args[0])
        if xs is None:
            return super().f_for_each(F, bb, st, inst, args, t, sp)
        return [(s, UNIT) for s, _ in self.each(F, bb, st, xs, args[1])]

    def f_fold(self, F, bb, st, inst, args, t, sp):
        cp, v, xs = self.src_iter(st, args[0])
        if xs is None:
            return super().f_fold(F, bb, st, inst, args, t, sp)
        work = [(st, args[1])]
        for x in xs:
            work = [p for s, acc in work for p in self.it.call_value(F, bb, s, args[2], [acc, x], None, None)]
        return work

    def f_count(self, F, bb, st, inst, args, t, sp):
        cp, v, xs = self.src_iter(st, args[0])
        if xs is None:
            return super().f_count(F, bb, st, inst, args, t, sp)
        return [(st, I(len(xs)))]

    def f_last(self, F, bb, st, inst, args, t, sp):
        if 'Iterator' in inst['d']:
            cp, v, xs = self.src_iter(st, args[0])
            if xs is None:
                return None
            dty = self.dty(F, t, inst)
            return [(st, self.enum_of(dty, 'Some', xs[-1]) if xs else self.enum_of(dty, 'None'))]
        return super().f_last(F, bb, st, inst, args, t, sp)

    def f_retain(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is None or v.op != 'arr':
            return super().f_retain(F, bb, st, inst, args, t, sp)
        work = [(st, [])]
        for x in v.a:
            nxt = []
            for s, ks in work:
                for s2, r in self.it.call_value(F, bb, s, args[1], [self.it.mkbox(x)], None, None):
                    for s3, b in self.bools(s2, self.it.simp(s2, r)):
                        nxt.append((s3, ks + [x] if b else ks))
            work = nxt
        for s, ks in work:
            self.setcell(s, F, cp, mk('arr', *ks))
        return [(s, UNIT) for s, _ in work]

    def f_extend(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is not None and v.op == 'arr':
            a1 = args[1]
            xs = self.conc(st, a1) if a1.op in ('iter', 'arr', 'adt') else None
            if xs is None and (a1.op == 'box' or self.isref(a1)):
                w = self.it.simp(st, self.peel(st, a1))
                xs = list(w.a) if w.op == 'arr' else None
            if xs is not None:
                self.setcell(st, F, cp, mk('arr', *(v.a + tuple(xs))))
                return [(st, UNIT)]
        return super().f_extend(F, bb, st, inst, args, t, sp)

    f_extend_from_slice = f_extend

    def f_append(self, F, bb, st, inst, args, t, sp):
        cp, c2 = self.cell_of(st, args[0]), self.cell_of(st, args[1])
        if cp and c2:
            v, w = self.getcell(st, cp), self.getcell(st, c2)
            if v.op == 'arr' and w.op == 'arr':
                self.setcell(st, F, cp, mk('arr', *(v.a + w.a)))
                self.setcell(st, F, c2, mk('arr'))
                return [(st, UNIT)]
        return super().f_append(F, bb, st, inst, args, t, sp)

    def f_remove(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is not None and v.op == 'arr' and 'Vec' in inst['d'] and args[1].op == 'int' and 0 <= args[1].a[0] < len(v.a):
            i = args[1].a[0]
            x = v.a[i]
            if method(inst['d']) == 'swap_remove':
                ys = list(v.a)
                ys[i] = ys[-1]
                nv = mk('arr', *ys[:-1])
            else:
                nv = mk('arr', *(v.a[:i] + v.a[i + 1:]))
            self.setcell(st, F, cp, nv)
            return [(st, x)]
        return super().f_remove(F, bb, st, inst, args, t, sp)

    f_swap_remove = f_remove

    def f_pop(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is not None and v.op == 'arr':
            dty = self.dty(F, t, inst)
            if not v.a:
                return [(st, self.enum_of(dty, 'None'))]
            self.setcell(st, F, cp, mk('arr', *v.a[:-1]))
            return [(st, self.enum_of(dty, 'Some', v.a[-1]))]
        return super().f_pop(F, bb, st, inst, args, t, sp)

    def f_drain(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        rg = self.range_of(args[1])
        if v is not None and v.op == 'arr' and rg is not None:
            a = 0 if rg[0] is None else rg[0].a[0] if rg[0].op == 'int' else None
            b = len(v.a) if rg[1] is None else rg[1].a[0] if rg[1].op == 'int' else None
            if a is not None and b is not None and 0 <= a <= b <= len(v.a):
                self.setcell(st, F, cp, mk('arr', *(v.a[:a] + v.a[b:])))
                return [(st, self.lst(v.a[a:b]))]
        return super().f_drain(F, bb, st, inst, args, t, sp)

    def f_split_off(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is not None and v.op == 'arr' and args[1].op == 'int' and args[1].a[0] <= len(v.a):
            self.setcell(st, F, cp, mk('arr', *v.a[:args[1].a[0]]))
            return [(st, mk('arr', *v.a[args[1].a[0]:]))]
        return super().f_split_off(F, bb, st, inst, args, t, sp)

    def f_reverse(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is not None and v.op == 'arr':
            self.setcell(st, F, cp, mk('arr', *reversed(v.a)))
            return [(st, UNIT)]
        return super().f_reverse(F, bb, st, inst, args, t, sp)

    def f_insert(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is not None and v.op == 'arr' and 'Vec' in inst['d'] and args[1].op == 'int' and args[1].a[0] <= len(v.a):
            i = args[1].a[0]
            self.setcell(st, F, cp, mk('arr', *(v.a[:i] + (args[2],) + v.a[i:])))
            return [(st, UNIT)]
        return super().f_insert(F, bb, st, inst, args, t, sp)

    def f_join(self, F, bb, st, inst, args, t, sp):
        v = self.it.simp(st, self.peel(st, args[0]))
        if v.op == 'arr' and not all(parts(self.peel(st, x)) is not None for x in v.a) and v.a and \
                all(self.it.simp(st, self.peel(st, x)).op == 'arr' for x in v.a) and len(args) == 1:
            return [(st, mk('arr', *[y for x in v.a for y in self.it.simp(st, self.peel(st, x)).a]))]
        if v.op == 'arr':
            v = mk('arr', *[self.peel(st, x) for x in v.a])
        sep = self.pat(st, args[1]) if len(args) > 1 else S('')
        return [(st, self.joinstr(v, sep))]

    f_concat = f_join

    def opaque_result(self, F, bb, st, inst, args, t, sp):
        out = super().opaque_result(F, bb, st, inst, args, t, sp)
        it = self.it
        it.opaque[inst['d']] = it.opaque.get(inst['d'], 0) + 1
        res = []
        for s, r in out:
            if r.op == 'call':
                it.fresh += 1
                r = mk('call', r.a[0], I(it.fresh), *r.a[1:], ty=r.ty)
            res.append((s, r))
        return res


class TInterp(Interp):
    def __init__(self, prog, maxstates=160):
        super().__init__(prog, None, maxstates)
        from more import More
        self.models = More(self)
        self.opaque = {}
        self.log_events = False
        self.steps = 0

    def emit(self, st, F, kind, data, bb=None, span=None):
        return None

    def obligation(self, st, F, bb, what, ok, detail='', span=None):
        return None

    # ------------------------------------------------------------ strings
    def b_streq(self, a, b):
        r = streq(a, b)
        if r is not None:
            return TRUE if r else FALSE
        for x, y in ((a, b), (b, a)):
            if y.op != 'str':
                continue
            z, w = x, 0
            if z.op == 'spec' and cls(z):
                w = specof(z.a[1])[1]
                z = z.a[0]
            if z.op == 'disp' and cls(z) == 'n' and isinstance(z.a[0], T):
                radix, al = 10, '0123456789'
            elif z.op == 'hex' and len(z.a) > 1:
                radix, al = 16, '0123456789' + ('abcdef' if z.a[1] == 'x' else 'ABCDEF')
            else:
                continue
            t = y.a[0]
            if not t or not all(c in al for c in t) or len(t) < w or len(t) > max(w, 1) and t[0] == '0':
                return FALSE
            return self.b_eq(z.a[0], I(int(t, radix)))
        return super().b_streq(a, b)

    def binop(self, st, F, op, a, b, checked, dty, aty):
        x, y = self.simp(st, a), self.simp(st, b)
        if x.op == 'flt' and y.op == 'flt' and op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            u, v = x.a[0], y.a[0]
            return I(int({'Eq': u == v, 'Ne': u != v, 'Lt': u < v, 'Le': u <= v, 'Gt': u > v, 'Ge': u >= v}[op]))
        return super().binop(st, F, op, a, b, checked, dty, aty)

    def b_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'hchar' and y.op == 'int':
                if wordname(x.a[0]) is not None and 0 < y.a[0] < 0x110000:
                    MAGIC.add((wordname(x.a[0]), chr(y.a[0])))
                if not mayhave(cls(x.a[0]), chr(y.a[0])) or cls(x.a[0]) == 'w':
                    return FALSE
        return super().b_eq(a, b)

    def len_(self, x):
        if x.op == 'cat':
            ps = parts(x)
            if ps is not None:
                fx = {p: digits(p) for p in ps if p.op != 'str'}
                hs = [p for p in ps if p in fx and fx[p][0] != fx[p][1]]
                n = sum(len(p.a[0].encode()) if p.op == 'str' else fx[p][0] for p in ps if p not in hs)
                if not hs:
                    return I(n)
                return self.add(mk('len', cat(*hs)), I(n))
        return super().len_(x)

    def len_iv(self, st, x, d):
        ps = parts(x)
        if ps is not None:
            lo = hi = 0
            for p in ps:
                a, b = (len(p.a[0].encode()),) * 2 if p.op == 'str' else digits(p)
                lo, hi = lo + a, None if b is None or hi is None else hi + b
            return lo, IMAX_ if hi is None else hi
        return super().len_iv(st, x, d)

    # ------------------------------------------------------------ trace partitioning
    def add_state(self, F, pend, bb, st):
        self.prune(F, bb, st)
        d = pend.setdefault(bb, {})
        for o in d.values():
            if o.mem == st.mem and o.facts == st.facts:
                return
        if len(d) >= self.maxstates:
            raise Undet('too many paths in %s' % F.inst['n'])
        self.fresh += 1
        d[('t', self.fresh)] = st

    def block(self, F, bb, st):
        self.steps += 1
        if self.steps > 400000:
            raise Undet('step budget')
        return super().block(F, bb, st)

    def loop(self, F, h, sts):
        states = list(sts.values())
        exits = {}
        res = []
        for n in range(2000):
            if not states:
                break
            backs, ex = self.region(F, F.cfg.loops[h], h, {i: s for i, s in enumerate(states)}, header=h)
            for tgt, s in ex:
                if tgt == 'ret':
                    res.append((tgt, s))
                else:
                    self.add_state(F, exits, tgt, s)
            states = []
            for b in backs:
                self.prune(F, h, b)
                if not any(o.mem == b.mem and o.facts == b.facts for o in states):
                    states.append(b)
            if len(states) > self.maxstates:
                raise Undet('too many paths in a loop of %s' % F.inst['n'])
        else:
            raise Undet('loop of %s not bounded on the template' % F.inst['n'])
        return res + [(t, s) for t, d in exits.items() for s in d.values()]

    def run(self, inst, args, st, path, t=None):
        F = self.frame(inst, path)
        body = inst['body']
        if len(args) != body['argc']:
            if args and args[-1].op == 'tup' and len(args) - 1 + len(args[-1].a) == body['argc']:
                args = list(args[:-1]) + list(args[-1].a)
            else:
                raise EngineError('arity of %s: %d vs %d' % (inst['n'], len(args), body['argc']))
        for i, a in enumerate(args):
            st.mem[(F.id, i + 1)] = a
        self.depth += 1
        self.callstack.append(inst['n'])
        try:
            _, exits = self.region(F, F.cfg.reach, 0, {(): st})
        finally:
            self.depth -= 1
            self.callstack.pop()
        res = []
        for tgt, s in exits:
            if tgt != 'ret':
                raise EngineError('exit to %s' % tgt)
            r = s.mem.get((F.id, 0), UNIT)
            for c in [c for c in s.mem if c[0] == F.id]:
                del s.mem[c]
            res.append((s, r))
        if len(res) > 1:
            out = []
            for s, r in res:
                if not any(r is r2 and s.mem == s2.mem and s.facts == s2.facts for s2, r2 in out):
                    out.append((s, r))
            res = out
        return res

    def call_inst(self, F, bb, st, inst, args, t, sp):
        if sum(1 for p in F.path if p[2] == inst['i']) > 1 and inst['local'] and inst['body']:
            # nested values of one type print and parse through the same function: allowed to a small depth
            if sum(1 for p in F.path if p[2] == inst['i']) > 6:
                raise Undet('recursion')
        return super().call_inst(F, bb, st, inst, args, t, sp)


IMAX_ = 2 ** 31 - 2
