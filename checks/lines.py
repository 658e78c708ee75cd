"""Line templates: the grammar of every line type the crate supports, written down from the specifications, with the value
each of its parts denotes.

    {path}          an identifier, which must arrive unchanged at `path`
    {path:n16}      the digits of any unsigned number of that width          {path:5-9}  of any number in the range
    {path:4} {:6} {:d}  an IPv4 / IPv6 address / host name                   {path:f32}  a float
    {path=kw:Var}   a case-insensitive keyword denoting variant Var          {path==lit} a literal string
    {path=!kw:Var}  the same, case-sensitive                                {path=~0.5}  a float literal
    <kw>            a case-insensitive literal                               ‹a|b|c›     alternatives
Parts that are not mentioned have the default of their field (None, empty, false, or the one given in `dflt`).
"""
import re
from core import *
from tmpl import TInterp, Undet, hole, parts, cls, streq, fconst, MAGIC, WORDS, WS
from models import cat

W = {'n8': 8, 'n16': 16, 'n32': 32, 'n64': 64}


def expand(text):
    """all selected expansions of the alternatives, as flat texts"""
    groups = []

    def parse(s):
        out, i, buf = [], 0, ''
        while i < len(s):
            if s[i] == '‹':
                d, j = 1, i + 1
                while d:
                    d += {'‹': 1, '›': -1}.get(s[j], 0)
                    j += 1
                alts, d, cur = [], 0, ''
                for c in s[i + 1:j - 1]:
                    d += {'‹': 1, '›': -1}.get(c, 0)
                    if c == '|' and d == 0:
                        alts.append(cur)
                        cur = ''
                    else:
                        cur += c
                alts.append(cur)
                out.append(buf)
                buf = ''
                out.append([parse(a) for a in alts])
                i = j
            else:
                buf += s[i]
                i += 1
        out.append(buf)
        return out

    tree = parse(text)

    def flat(node):
        """expansions of a node: first the plain one"""
        opts = [[x] if isinstance(x, str) else [y for a in x for y in flat(a)] for x in node]
        base = [o[0] for o in opts]
        full = [o[-1] for o in opts]
        res = [''.join(base)]
        for i, o in enumerate(opts):
            for y in o[1:]:
                res.append(''.join(base[:i] + [y] + base[i + 1:]))
        for i, o in enumerate(opts):
            for y in o[:-1]:
                res.append(''.join(full[:i] + [y] + full[i + 1:]))
        res.append(''.join(full))
        seen = []
        for r in res:
            if r not in seen:
                seen.append(r)
        return seen
    return flat(tree)


TOK = re.compile(r'\{([^{}=:]*)(?:=(=|~|!?)([^{}]*?)(?::([A-Za-z0-9]+))?|:([^{}]+))?\}|<([^<>]*)>')


class Case:
    """one line: its template term, the interval facts on its holes, the expected values"""

    def __init__(self, P, line, kind, variant, text, dflt, caser=None, tag=''):
        self.tag = tag
        self.kind, self.variant, self.text, self.dflt, self.prefix = kind, variant, text, dflt or {}, line
        self.exp = {}
        self.extra = set()
        self.facts = []
        self.holes = {}
        self.P = P
        ps = [S(line)]
        pos = 0
        kw = caser or (lambda s: s)
        for m in TOK.finditer(text):
            ps.append(S(text[pos:m.start()]))
            pos = m.end()
            if m.group(6) is not None:
                ps.append(S(kw(m.group(6))))
                continue
            path = m.group(1)
            if m.group(3) is not None:
                lit, var = m.group(3), m.group(4)
                if m.group(2) == '=':
                    ps.append(S(lit + (':' + var if var else '')))
                    self.exp[path] = S(lit + (':' + var if var else ''))
                elif m.group(2) == '~':
                    ps.append(S(lit))
                    self.exp[path] = lit and mk('flt', float(lit))
                else:
                    ps.append(S(lit if m.group(2) == '!' else kw(lit)))
                    if var in ('true', 'false'):
                        self.exp[path] = TRUE if var == 'true' else FALSE
                    elif var is not None and var.isdigit():
                        self.exp[path] = I(int(var))
                    elif var is not None:
                        self.exp[path] = var
                continue
            ps.append(self.mkhole(path, m.group(5)))
        ps.append(S(text[pos:]))
        self.line = cat(*[p for p in ps if not (p.op == 'str' and not p.a[0])])

    def own(self):
        """the unknowns of the line"""
        return self.extra | {y for e in self.exp.values() if isinstance(e, T) for y in subterms(e) if y.op == 'opq'} | \
            {v for v, _, _ in self.facts}

    def ty(self, kind, name):
        P = self.P
        if kind == 'float':
            return P.find_ty(lambda k: k['k'] == 'float' and k['n'] == name)
        if kind == 'adt':
            return next(i for i, t in P.types.items() if t['k'] == 'adt' and short(t['n']) == name)
        return P.find_ty(lambda k: k['k'] == 'uint' and k['n'] == name)

    def mkhole(self, path, spec):
        key = path
        if key in self.holes:
            raise ValueError('hole %s twice' % key)
        if spec is None:
            t = hole(self.tag + path)
            self.exp[path] = t
        elif spec in ('s', 'o', 'z'):
            # free text: two words; a token with every character a token may have; base64
            t = cat(hole(self.tag + path + '.a'), S({'s': ' ', 'o': "!#$%&'*+-.^_`|~", 'z': '+/'}[spec]), hole(self.tag + path + '.b'),
                    *([S('==')] if spec == 'z' else []))
            self.exp[path] = t
        elif spec in ('p', 'P'):
            # name=value of an unknown parameter
            t = cat(hole(self.tag + path + '.n'), S('='), hole(self.tag + path + '.v') if spec == 'p' else
                    mk('disp', mk('opq', self.tag + path + '.v', ty=self.ty('uint', 'u32')), self.ty('uint', 'u32')))
            self.exp[path] = t
        elif spec == 'd':
            t = cat(hole(self.tag + path + '.host'), S('.example'))
            self.exp[path] = t
        elif spec in ('4', '6'):
            ty = self.ty('adt', 'Ipv%sAddr' % spec)
            v = mk('opq', self.tag + path, ty=ty)
            t = mk('disp', v, ty)
            self.exp[path] = v
        elif spec in ('f32', 'f64'):
            ty = self.ty('float', spec)
            v = mk('opq', self.tag + path, ty=ty)
            t = mk('disp', v, ty)
            self.exp[path] = v
        elif spec.startswith('x'):
            bits = int(spec[1:])
            ty = self.ty('uint', 'u8' if bits <= 8 else 'u32')
            v = mk('opq', self.tag + path, ty=ty)
            if bits < 32:
                self.facts.append((v, 0, 2 ** bits - 1))
            t = mk('hex', v, 'X')
            if bits == 8:
                t = mk('spec', t, 'f69000020,w2')
            self.exp[path] = v
        else:
            if spec in W:
                lo, hi = 0, 2 ** W[spec] - 1
            else:
                lo, hi = [eval_int(x) for x in spec.split('-')]
            ty = self.ty('uint', 'u64')
            v = mk('opq', self.tag + path, ty=ty)
            self.facts.append((v, lo, hi))
            t = mk('disp', v, ty)
            self.exp[path] = v
        if '+' in path:
            # a repeated part: the field has either value
            self.extra |= {y for y in subterms(self.exp.pop(path)) if y.op == 'opq'}
            self.exp[path.split('+')[0]] = ANY
        self.holes[key] = t
        return t


ANY = object()


def eval_int(x):
    x = x.strip()
    m = re.match(r'^2\^(\d+)(~1)?$', x)
    if m:
        return 2 ** int(m.group(1)) - (1 if m.group(2) else 0)
    return int(x, 0)


PRECISE = {'opq', 'diff', 'int', 'str', 'hole', 'disp', 'spec', 'hex', 'lower', 'upper', 'cat', 'len', 'lt', 'le', 'eq', 'ne', 'add',
           'sub', 'not', 'box', 'adt', 'arr', 'tup', 'streq', 'flt', 'fle', 'feq', 'fcmp', 'and', 'or'}


def precise(st, case):
    """only facts about the parts of the line were assumed on this path"""
    own = case.own()
    for k in st.facts:
        for y in subterms(k):
            if y.op not in PRECISE or y.op == 'opq' and y not in own:
                return False
    return True


class Lines:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.p
        self.cases = []
        self.usize = self.P.find_ty(lambda k: k['k'] == 'uint' and k['n'] == 'usize')
        self.stats = dict(cases=0, decided=0, undetermined=0)
        self.u64 = self.P.find_ty(lambda k: k['k'] == 'uint' and k['n'] == 'u64')
        self.fns = set()
        self.parse_fn = ctx.fn('webrtc_sdp::parse_sdp_line')

    # ------------------------------------------------------------ running
    def parse(self, case, maxstates=160):
        """[(it, state, result)] of parsing the line"""
        it = TInterp(self.P, maxstates)
        st = State()
        for v, lo, hi in case.facts:
            it.meet_iv(st, v, lo, hi)
        outs = it.root(self.parse_fn, [box(case.line), mk('opq', 'ln', ty=self.usize)], st)[0]
        self.fns |= {self.P.insts[i]['n'] for i, _ in it.blocks_seen if self.P.insts[i]['local']}
        return it, outs

    def field(self, v, name):
        """field of a struct term by name"""
        k = self.P.types[v.a[0]]
        for f, y in zip(k['v'][v.a[1]]['f'], v.a[2:]):
            if f[0] == name:
                return y
        return None

    def payload(self, it, st, r):
        """(line type, variant, root value) of an accepted line"""
        ln = it.simp(st, r.a[2])
        t = it.simp(st, self.field(ln, 'sdp_type'))
        kind = it.vname(t)
        if len(t.a) < 3:
            return kind, None, None
        x = it.simp(st, t.a[2])
        while x.op == 'box':
            x = it.simp(st, x.a[0])
        if kind == 'Attribute':
            return kind, it.vname(x), x
        return kind, None, x

    def get(self, it, st, v, path):
        """value at a path; options and boxes are entered automatically"""
        for e in [e for e in re.split(r'\.|(?=\[)', path) if e]:
            v = self.enter(it, st, v)
            if v is None:
                return None
            if e.startswith('['):
                if v.op != 'arr':
                    raise Undet('list ' + path)
                i = int(e[1:-1])
                if i >= len(v.a):
                    return None
                v = v.a[i]
            else:
                if v.op == 'tup':
                    v = v.a[int(e)]
                elif v.op == 'adt':
                    w = self.field(v, e)
                    if w is None:
                        return None
                    v = w
                else:
                    raise Undet('value ' + path)
        return it.simp(st, v)

    def enter(self, it, st, v):
        v = it.simp(st, v)
        while True:
            if v.op == 'box':
                v = it.simp(st, v.a[0])
            elif v.op == 'adt' and short(self.P.types[v.a[0]]['n']) in ('Option',) and len(v.a) == 3:
                v = it.simp(st, v.a[2])
            elif v.op == 'adt' and short(self.P.types[v.a[0]]['n']) == 'Option':
                return None
            else:
                return v

    def matches(self, it, st, exp, v):
        """True / False / None"""
        if v is None:
            return False
        v = self.enter(it, st, v)
        if v is None:
            return False
        if isinstance(exp, str):
            return it.vname(v) == exp if v.op == 'adt' else None
        if exp.op == 'opq' and self.P.types[exp.ty]['k'] == 'adt' or exp.op in ('cat', 'hole') and v.op == 'adt':
            # an address or host name inside its wrappers
            while v.op in ('adt', 'box'):
                fs = [it.simp(st, y) for y in v.a[2:]] if v.op == 'adt' else [it.simp(st, v.a[0])]
                if v.op == 'adt' and len(fs) == 2 and self.field(v, 'domain') is not None:
                    fs = [self.field(v, 'domain')]
                if len(fs) != 1:
                    return None
                if exp.op == 'opq' and v.op == 'adt' and self.P.types[exp.ty]['n'].endswith('v4Addr') != (it.vname(v) == 'V4') \
                        and it.vname(v) in ('V4', 'V6'):
                    return False
                v = it.simp(st, fs[0])
            if exp.op == 'opq':
                return True if v is exp else False if v.op in ('opq', 'str', 'hole', 'cat') else None
        if v is exp:
            return True
        if exp.op in ('str', 'cat', 'hole'):
            return streq(exp, v)
        if exp.op == 'flt':
            return exp.a[0] == v.a[0] or fconst(repr(exp.a[0]), 'f32') is v if v.op == 'flt' else False if v.op == 'opq' else None
        if exp.op in ('int', 'opq') and it.is_int_ty(it.ty_of(exp)) or exp.op == 'int':
            a, b = it.iv(st, exp), it.iv(st, v)
            if a[0] == a[1] and a == b:
                return True
            if a[1] < b[0] or b[1] < a[0]:
                return False
            d = it.truth(st, it.b_eq(exp, v))
            if d == 1:
                return True
            if v.op in ('opq', 'int') or d == 0:
                return False
            return None
        if exp.op == 'opq' and v.op in ('opq', 'flt'):
            return False
        return None

    def leaves(self, it, st, v, path=''):
        """(path, value) of every leaf field"""
        v = it.simp(st, v)
        while v.op == 'box':
            v = it.simp(st, v.a[0])
        if v.op == 'adt' and short(self.P.types[v.a[0]]['n']) == 'Option':
            if len(v.a) == 3:
                yield from self.leaves(it, st, v.a[2], path)
            else:
                yield path, v
            return
        if v.op == 'adt' and self.P.types[v.a[0]].get('local'):
            fs = self.P.types[v.a[0]]['v'][v.a[1]]['f']
            if not fs or self.P.types[v.a[0]]['ak'] == 'Enum':
                yield path, v
            for f, y in zip(fs, v.a[2:]):
                yield from self.leaves(it, st, y, (path + '.' if path else '') + f[0])
            return
        if v.op in ('arr', 'tup') and v.a:
            for i, y in enumerate(v.a):
                yield from self.leaves(it, st, y, path + ('[%d]' % i if v.op == 'arr' else '.%d' % i))
            return
        yield path, v

    def isdefault(self, it, st, v):
        v = it.simp(st, v)
        if v.op == 'adt':
            if short(self.P.types[v.a[0]]['n']) == 'Option':
                return len(v.a) == 2
            return True                # unmentioned variants are checked through their own path
        if v.op == 'arr':
            return not v.a
        if v.op == 'str':
            return v.a[0] == ''
        if v.op == 'int':
            return v.a[0] == 0
        if v.op in ('opq', 'hole', 'cat', 'disp'):
            return False
        return None

    def judge(self, case, it, st, r):
        """(verdict, text) for one outcome of a line that must be accepted: True, False, None"""
        if it.vname(r) == 'Err':
            return False, 'is refused'
        if it.vname(r) != 'Ok':
            return None, 'result unknown'
        kind, var, x = self.payload(it, st, r)
        if kind != case.kind or var != case.variant:
            return (False if kind and (var or kind != 'Attribute') else None), 'becomes %s %s instead of %s %s' % (kind, var, case.kind, case.variant)
        return self.judge_value(case, it, st, x.a[2] if case.kind == 'Attribute' and len(x.a) == 3 else x)

    def judge_value(self, case, it, st, root):
        """does a value have the fields its line denotes"""
        res = True
        why = ''
        for path, e in list(case.exp.items()) + [(p, d) for p, d in case.dflt.items() if p not in case.exp]:
            if path.startswith('-') or e is ANY:
                continue
            try:
                v = self.get(it, st, root, path)
            except Undet:
                res, why = None, path
                continue
            if isinstance(e, int) and not isinstance(e, bool):
                e = I(e)
            m = self.matches(it, st, e, v)
            if m is False:
                return False, 'field `%s` is `%s` instead of `%s`' % (path, say(self.P, v) if v is not None else 'absent',
                                                                     e if isinstance(e, str) else say(self.P, e))
            if m is None:
                res, why = None, path
        paths = set(case.exp) | set(case.dflt)
        for path, v in self.leaves(it, st, root):
            if any(path == q or path.startswith(q + '.') or path.startswith(q + '[') or q.startswith(path + '.') or
                   q.startswith(path + '[') for q in paths if q) or not path:
                continue
            d = self.isdefault(it, st, v)
            if d is False:
                return False, 'field `%s` is `%s` although the line does not mention it' % (path, say(self.P, v))
            if d is None:
                res, why = None, path
        return res, why

    def accept(self, case):
        """verdict of a line that must be accepted with its expected value: ('ok' | 'bad' | 'undet', text, outs)"""
        try:
            it, outs = self.parse(case)
        except Exception as e:
            return 'undet', str(e), None
        js = [(st, r) + self.judge(case, it, st, r) for st, r in outs]
        bad = [j for j in js if j[2] is False and precise(j[0], case)]
        if bad or js and all(j[2] is False for j in js):
            j = (bad or js)[0]
            return 'bad', j[3] + cond(self.P, it, case, j[0]), (it, outs)
        if js and all(j[2] is True for j in js):
            return 'ok', '', (it, outs)
        return 'undet', '; '.join(sorted({j[3] for j in js if j[2] is not True}))[:300], (it, outs)

    def refuse(self, case):
        """verdict of a line that must be refused"""
        try:
            it, outs = self.parse(case)
        except Exception as e:
            return 'undet', str(e), None
        acc = [(st, r) for st, r in outs if it.vname(r) == 'Ok']
        bad = [j for j in acc if precise(j[0], case)]
        if bad or acc and len(acc) == len(outs):
            st, r = (bad or acc)[0]
            k, v, x = self.payload(it, st, r)
            return 'bad', 'is accepted as %s %s%s' % (k, say(self.P, x) if x is not None else '', cond(self.P, it, case, st)), (it, outs)
        if acc:
            return 'undet', '', (it, outs)
        return 'ok', '', (it, outs)


def cond(P, it, case, st):
    """the assumption of a path on the numbers of the line"""
    base = {v: (lo, hi) for v, lo, hi in case.facts}
    out = []
    for k, f in st.facts.items():
        if k.op == 'opq' and f[0] == 'iv' and (f[1], f[2]) != base.get(k):
            out.append('%s in %s..%s' % (k.a[0], f[1], f[2]))
    return ' when ' + ', '.join(out[:3]) if out else ''


from shapes import say     # noqa: E402


# ---------------------------------------------------------------- printing and reading back
LINE_ADT = {'Origin': 'SdpOrigin', 'Connection': 'SdpConnection', 'Bandwidth': 'SdpBandwidth', 'Timing': 'SdpTiming',
            'Media': 'SdpMediaLine', 'Session': None, 'Version': None}


def route(P, it):
    """the functions of the crate an analysis ran through, innermost parser last"""
    ns = sorted({P.insts[i]['n'] for i, _ in it.blocks_seen if P.insts[i]['local'] and '{closure' not in P.insts[i]['n']})
    return [n.replace('webrtc_sdp::', '') for n in ns]


def where(P, it):
    """the most specific parser function of an analysis and its source position"""
    best = None
    for i in {i for i, _ in it.blocks_seen}:
        x = P.insts[i]
        n = x['n']
        if not x['local'] or '{closure' in n:
            continue
        s = short(n.split('::<')[0])
        w = (s.startswith('parse_') and s not in ('parse_sdp_line', 'parse_attribute', 'parse_sdp', 'parse_sdp_vector'),
             n.startswith('webrtc_sdp::'), len(n))
        if best is None or w > best[0]:
            best = (w, x)
    if best is None:
        return '', None
    return best[1]['n'].replace('webrtc_sdp::', ''), best[1]['span']


def printing(L, it, st, kind, x, line):
    """[(state, template of the printed line)] of a line value"""
    if kind == 'Attribute':
        return [(s, y if y.op == 'str' and not y.a[0] else cat(S('a='), y)) for s, y in it.models.disp_multi(None, 0, st.copy(), x, x.a[0])]
    if kind in ('Session',):
        return [(st.copy(), cat(S(line), x))]
    if kind == 'Version':
        return [(s, cat(S(line), y)) for s, y in it.models.disp_multi(None, 0, st.copy(), x, L.u64)]
    return [(s, cat(S(line), y)) for s, y in it.models.disp_multi(None, 0, st.copy(), x, x.a[0])]


def reparse(L, case, st, text, maxstates=160):
    it = TInterp(L.P, maxstates)
    s = State()
    s.facts = dict(st.facts)
    outs = it.root(L.parse_fn, [box(text), mk('opq', 'ln', ty=L.usize)], s)[0]
    return it, outs


def all_cases(P, caser=None):
    import table
    for line, kind, text in table.LINES:
        for e in expand(text):
            yield Case(P, line, kind, None, e, table.LDFLT.get(line), caser)
    for n, v in table.FLAGS:
        yield Case(P, 'a=' + (caser or str)(n), 'Attribute', v, '', None, caser)
    for n, v, t, d in table.ATTRS:
        for e in expand(t):
            yield Case(P, 'a=' + (caser or str)(n) + ':', 'Attribute', v, e, d, caser)


def flat_texts():
    """(line prefix, kind, variant, flat text, defaults) of every row of the table"""
    import table
    for line, kind, text in table.LINES:
        for e in expand(text):
            yield line, kind, None, e, table.LDFLT.get(line)
    for n, v, t, d in table.ATTRS:
        for e in expand(t):
            yield 'a=' + n + ':', 'Attribute', v, e, d


# lists: attribute or line, variant, text with <L> for the list, element, separator, longest
LISTS = [
    ('m=', None, 'audio {port:0-65535} RTP/AVP <L>', '{formats.0[%d]:96-127}', ' ', 300),
    ('m=', None, 'application {port:0-65535} UDP/DTLS/SCTP <L>', '{formats.0[%d]}', ' ', 300),
    ('group', 'Group', '{semantics=BUNDLE:Bundle} <L>', '{tags[%d]}', ' ', 300),
    ('ice-options', 'IceOptions', '<L>', '{[%d]}', ' ', 300),
    ('msid-semantic', 'MsidSemantic', '{semantic} <L>', '{msids[%d]}', ' ', 300),
    ('rid', 'Rid', '{id} {direction=!send:Send} pt=<L>', '{formats[%d]:n16}', ',', 300),
    ('rid', 'Rid', '{id} {direction=!recv:Recv} pt={formats[0]:n16};depends=<L>', '{depends[%d]}', ',', 300),
    ('rid', 'Rid', '{id} {direction=!send:Send} max-fs={params.max_fs:n32};<L>', '{params.unknown[%d]==n%dx=7}', ';', 70),
    ('simulcast', 'Simulcast', 'send <L>', '{send[%d].ids[0].id}', ';', 300),
    ('simulcast', 'Simulcast', 'recv <L> send {send[0].ids[0].id}', '{receive[%d].ids[0].id}', ';', 300),
    ('simulcast', 'Simulcast', 'send {send[0].ids[0].id};<L>', '{send[1].ids[%d].id}', ',', 300),
    ('simulcast', 'Simulcast', 'recv <L>', '~{receive[0].ids[%d].id}{receive[0].ids[%d].paused=!:true}', ',', 70),
    ('ssrc-group', 'SsrcGroup', '{0=SIM:Sim} <L>', '{1[%d].id:n32}', ' ', 300),
    ('imageattr', 'ImageAttr', '{pt.0:n8} send <L>', '[x={send.0[%d].x.0[0]:n32},y={send.0[%d].y.0[0]:n32}]', ' ', 70),
    ('imageattr', 'ImageAttr', '{pt=!*:Wildcard} recv <L> send {send=!*:Wildcard}', '[x={recv.0[%d].x.0[0]:n32},y={recv.0[%d].y.0[0]:n32}]', ' ', 70),
    ('imageattr', 'ImageAttr', '{pt.0:n8} send [x=[<L>],y={send.0[0].y.0[0]:n32}]', '{send.0[0].x.0[%d]:n32}', ',', 300),
    ('imageattr', 'ImageAttr', '{pt.0:n8} send [x={send.0[0].x.0[0]:n32},y={send.0[0].y.0[0]:n32},sar=[<L>]]', '{send.0[0].sar.0[%d]=~%d.5}', ',', 70),
    ('candidate', 'Candidate', '{foundation} {component:n32} {transport=udp:Udp} {priority:n64} {address:4} {port:0-65535} typ {c_type=host:Host} '
     '<L>', '{unknown_extensions[%d].0} {unknown_extensions[%d].1}', ' ', 70),
    ('fmtp', 'Fmtp', '{payload_type:n8} <L>', '{parameters.encodings[%d]:0-128}', '/', 300),
    ('fmtp', 'Fmtp', '{payload_type:n8} max-fs={parameters.max_fs:n32};<L>', '{parameters.unknown_tokens[%d]==n%dx=7}', ';', 70),
]


def long_cases(P):
    """lists longer than every small constant of the code that reads and prints lines"""
    import docs
    import table
    dflt = {n: d for n, v, t, d in table.ATTRS if d}
    roots = [x for x in P.insts if x['body'] and x['local'] and re.search(r'::parse_sdp_line$|Display>::fmt$', x['n'])]
    ks = set()
    for x in roots:
        ks |= docs.constants(P, x)
    for name, var, text, el, sep, most in LISTS:
        for k in sorted({6, 11, 17, 33} | {k + 1 for k in ks if 3 <= k < most}):
            if k <= most:
                t = text.replace('<L>', sep.join(el % ((i,) * el.count('%d')) for i in range(k)))
                if name == 'm=':
                    yield Case(P, name, 'Media', None, t, table.LDFLT.get(name))
                else:
                    yield Case(P, 'a=' + name + ':', 'Attribute', var, t, dflt.get(name))


# parts that are base64-like text, and parts that are text up to the end of the line
BASE64 = {('Identity', ''), ('IceUfrag', ''), ('IcePwd', ''), ('Candidate', 'foundation'), ('Candidate', 'ufrag'), ('Ssrc', 'value'),
          ('Extmap', 'url'), ('Extmap', 'extension_attributes'), ('s=', ''), ('o=', 'username')}
TEXT = {('s=', ''), ('Ssrc', 'value'), ('Rtcpfb', 'extra'), ('Extmap', 'extension_attributes'), ('Identity', '')}


def free_cases(P):
    for line, kind, var, t, d in free_texts():
        yield Case(P, line, kind, var, t, d)


def free_texts():
    """the words of every row as free text: tokens with every token character, base64, and two words at the end of a line"""
    seen = set()
    for line, kind, var, text, d in flat_texts():
        if var == 'Fmtp' and text.count('=') > 24:
            continue
        ms = [m for m in TOK.finditer(text) if m.group(6) is None and m.group(3) is None and m.group(5) is None]
        for spec, ok in (('o', lambda k: k[0] != 'Simulcast'), ('z', lambda k: k in BASE64), ('s', lambda k: k in TEXT)):
            t = text
            for m in reversed(ms):
                if ok((var or line, m.group(1))):
                    t = t[:m.end() - 1] + ':' + spec + t[m.end() - 1:]
            if t != text and (line, t) not in seen:
                seen.add((line, t))
                yield line, kind, var, t, d


FULL = {'0-65535': 65535, '0-128': 128, '0-1': 1, '0-2': 2, '0-31': 31, '0-127': 127, '0-9999999999': 9999999999,
        'n8': 2 ** 8 - 1, 'n16': 2 ** 16 - 1, 'n32': 2 ** 32 - 1}
# (variant or line, path): words with another meaning there
OPEN = {('Fmtp', 'parameters.encodings'), ('b=', ''), ('Rtcp', 'unicast_addr.address_type')}


def mutants(P, kinds):
    """every part of every line form replaced by something it must not be: 'word' no number where a number belongs, 'above' a number
    beyond the field, 'key' no keyword of the vocabulary; (what, case)"""
    seen = set()
    vocab = {}
    rows = list(flat_texts())
    for line, kind, var, text, d in rows:
        for m in TOK.finditer(text):
            if m.group(4) and m.group(2) in ('', '!'):
                vocab.setdefault((line, m.group(1)), set()).add(m.group(3).lower())
    for line, kind, var, text, d in rows:
        if var == 'Fmtp' and text.count('=') > 24:
            continue
        for m in TOK.finditer(text):
            path, spec = m.group(1) or '', m.group(5)
            reps = []
            if spec and (spec in W or spec in FULL or spec in ('f32', 'f64') or re.match(r'^[0-9^~]+-[0-9^~]+$', spec)):
                if 'word' in kinds:
                    reps += [('word', 'q{zz}'), ('word', '{zz}')]
                    reps += [('word', '-1'), ('word', '0x1'), ('word', '1.5')] if spec[0] != 'f' else [('word', '1.x')]
                if 'above' in kinds and spec in FULL:
                    reps.append(('above', '{%s:%d-%d}' % (path, FULL[spec] + 1, 2 ** 64 - 1)))
            elif m.group(2) == '~' and 'word' in kinds:
                reps += [('word', '{zz}'), ('word', '1.x')]
            elif m.group(4) and m.group(2) in ('', '!') and m.group(4)[0].isupper() and 'key' in kinds and m.group(3) not in ('*',):
                vs = vocab[(line, path)]
                kw = m.group(3)
                for w in [kw[:i] for i in range(1, len(kw))] + [kw + 'x', kw + '-', '{zz}', 'x' + kw]:
                    if w.lower() not in vs:
                        reps.append(('key', w))
            for what, w in reps:
                if any(k in (var, line) and path.startswith(q) for k, q in OPEN):
                    continue
                t = text[:m.start()] + w + text[m.end():]
                # later parts that repeat the name of a hole keep theirs
                if (line, t) in seen:
                    continue
                seen.add((line, t))
                c = Case(P, line, kind, var, t, d)
                c.what = what
                yield c


def known_words(prefix):
    """words and separators of the vocabulary of a line"""
    import table
    prefix = prefix.lower()
    if prefix not in _KNOWN:
        ws, seps = set(), set(WS)
        for line, kind, var, text, d in flat_texts():
            if not (line == prefix or prefix.startswith(line) or line.startswith(prefix)):
                continue
            lit = TOK.sub(lambda m: ' ' + (m.group(3) + (':' + m.group(4) if m.group(2) == '=' and m.group(4) else '') if m.group(3) is not None
                                           else m.group(6) or ' ') + ' ', text)
            ws |= {w.lower() for w in lit.split()} | {w.lower() for w in re.split(r'[^A-Za-z0-9-]+', lit)} | \
                {w.lower() for w in re.split(r'[^A-Za-z0-9]+', lit)}
            seps |= {c for c in TOK.sub(' ', text) if not c.isalnum() and c != '-'}
        ws |= {x[0] for x in table.FLAGS} | {x[0] for x in table.ATTRS}
        _KNOWN[prefix] = ws, seps
    return _KNOWN[prefix]


_KNOWN = {}


def substitutes(prefix, lit):
    """words to put where the code looks for the literal, if the literal does not belong to the grammar of the line"""
    ws, seps = known_words(prefix)
    if not lit or lit.lower() in ws or any(c in seps or c in '{}<>=:\\' or not c.isprintable() for c in lit) or len(lit) > 40:
        return []
    if len(lit) == 1 and lit.isalnum():
        return [lit + 'xy', 'xy' + lit]
    mix = ''.join(c.upper() if i % 2 == 0 else c.lower() for i, c in enumerate(lit))
    return [lit] * (len(lit) > 1) + [mix] * (mix != lit) + [lit + 'xy', 'xy' + lit, 'x' + lit + 'y']


def pair_cases(P):
    """every two parameters of fmtp and of rid together"""
    import itertools
    import table
    for p, q in itertools.combinations(table.FMTP_P, 2):
        yield Case(P, 'a=fmtp:', 'Attribute', 'Fmtp', '{payload_type:n8} %s;%s' % (p, q), table.FMTP0)
    for p, q in itertools.combinations([x for x in table.RIDP if ':' in x], 2):
        yield Case(P, 'a=rid:', 'Attribute', 'Rid', '{id} {direction=!send:Send} %s;%s' % (p, q), table.RID0)


def alike_texts(least=2):
    """the rows with all words of a line the same word and all its numbers the same number"""
    seen = set()
    for line, kind, var, text, d in flat_texts():
        if var == 'ImageAttr' or var == 'Fmtp' and text.count('=') > 24 or '+a:' in text:
            continue
        n = [0, 0]

        def rep(m):
            path, spec = m.group(1) or '', m.group(5)
            if m.group(6) is not None or m.group(3) is not None:
                return m.group(0)
            if spec in (None, 'p', 'P'):
                n[0] += 1
                return '{%s==%s}' % (path, {'p': 'zz=zz', 'P': 'zz=9'}.get(spec, 'zz'))
            if spec in W or re.match(r'^[0-9]+-[0-9]+$', spec):
                lo, hi = (0, 255) if spec in W else [int(x) for x in spec.split('-')]
                v = next((v for v in (9, 96, 1, 20, 100) if lo <= v <= hi), None)
                if v is not None:
                    n[1] += 1
                    return '{%s=!%d:%d}' % (path, v, v)
            return m.group(0)
        t = TOK.sub(rep, text)
        if n[0] + n[1] >= least and max(n) > 1 and (line, t) not in seen:
            seen.add((line, t))
            yield line, kind, var, t, d


def alike_cases(P):
    for line, kind, var, t, d in alike_texts():
        yield Case(P, line, kind, var, t, d)


def near(n):
    """names that are almost the name"""
    return ['x-' + n, n + '-x', 'x' + n, n + '2', n[:-1], n.replace('-', '_') if '-' in n else n[:2] + '-' + n[2:]]


def near_cases(P):
    """unknown parameters whose names are almost those of known ones"""
    import table

    def case(name, var, t, d):
        return Case(P, 'a=%s:' % name, 'Attribute', var, t, d)
    keys = {m.group(1) for p in table.FMTP_P + ['<apt>=', '<rtx-time>='] for m in re.finditer('<([^<>]*)>=', p)}
    for k in sorted(keys):
        for n in near(k):
            if n not in keys and n not in table.RIDP:
                yield case('fmtp', 'Fmtp', '{payload_type:n8} {parameters.unknown_tokens[0]==%s=3}' % n, table.FMTP0)
                yield case('fmtp', 'Fmtp', '{payload_type:n8} <max-fs>={parameters.max_fs:n32};{parameters.unknown_tokens[0]==%s=1}' % n, table.FMTP0)
    cand = table.CAND.split('‹')[0] + '{transport=udp:Udp} {priority:n64} {address:4} {port:0-65535} typ {c_type=host:Host}'
    keys = {'raddr', 'rport', 'tcptype', 'generation', 'ufrag', 'network-cost'}
    for k in sorted(keys):
        for n in near(k):
            for v in ('9', 'active', '10.0.0.1'):
                yield case('candidate', 'Candidate', cand + ' {unknown_extensions[0].0==%s} {unknown_extensions[0].1==%s}' % (n, v), None)
    keys = {p.split('=')[0] for p in table.RIDP if not p.startswith('{')} | {'pt'}
    for k in sorted(keys):
        for n in near(k):
            if n not in keys and n:
                yield case('rid', 'Rid', '{id} {direction=!send:Send} {params.unknown[0]==%s=3}' % n, table.RID0)
                yield case('rid', 'Rid', '{id} {direction=!recv:Recv} pt={formats[0]:n16};{params.unknown[0]==%s=3}' % n, table.RID0)


def substitute(text, path, word):
    """text with the generic word at path fixed"""
    for suf, specs in (('', (None,)), ('.host', ('d',)), ('.a', ('s', 'o', 'z')), ('.b', ('s', 'o', 'z')), ('.n', ('p', 'P')), ('.v', ('p',))):
        if not path.endswith(suf):
            continue
        p = path[:len(path) - len(suf)] if suf else path
        for m in TOK.finditer(text):
            if m.group(6) is None and m.group(3) is None and (m.group(1) or '') == p and m.group(5) in specs:
                w = {'.n': word + ('=7' if m.group(5) == 'P' else '=zz'), '.v': 'foo=' + word}.get(suf, word)
                return text[:m.start()] + '{%s==%s}' % (p, w) + text[m.end():]
    return None


def finish_lines(ctx, L, least):
    ctx.cov['line_templates'] = L.stats['cases']
    ctx.cov['templates_decided'] = L.stats['decided']
    ctx.cov['templates_undetermined'] = L.stats['undetermined']
    if L.stats['decided'] < least:
        ctx.fail('floor:templates', 'only %d of %d line templates could be decided, at least %d expected' % (
            L.stats['decided'], L.stats['cases'], least))
    ctx.fnset |= L.fns


def pmap(f, items, jobs=8):
    """f over items in forked workers; results must be plain data, in order"""
    import multiprocessing as mp
    items = list(items)
    if os.environ.get('VERIF_SERIAL') or len(items) < 8:
        return [f(x) for x in items]
    global _F, _ITEMS
    _F, _ITEMS = f, items
    with mp.get_context('fork').Pool(jobs) as pool:
        out = []
        for r, mg in pool.map(_call, range(len(items)), max(1, len(items) // (jobs * 8))):
            MAGIC.update(mg)
            out.append(r)
        return out


def _call(i):
    r = _F(_ITEMS[i])
    return r, {m for m in MAGIC if isinstance(m[1], str)}


def rounds(most=4):
    """assignments of words to the unknowns of the templates analysed so far: words the code compares them with that are none of
    the grammar"""
    import table
    pre = [line for line, _, _ in table.LINES] + ['a=' + x[0] for x in table.FLAGS] + ['a=' + n + ':' for n, _, _, _ in table.ATTRS]
    ok = {}
    for p, lit in sorted((m for m in MAGIC if isinstance(m[0], str)), key=str):
        if lit not in ok:
            ok[lit] = [] if any(not substitutes(x, lit) for x in set(pre)) else substitutes('a=mid:', lit)
        for w in ok[lit]:
            ok.setdefault((p,), []).append(w)
    ws = {k[0]: v for k, v in ok.items() if isinstance(k, tuple)}
    for i in range(min(most, max(map(len, ws.values()), default=0))):
        yield {p: v[i % len(v)] for p, v in ws.items()}


def batch(ctx, L, cases, what, judge, again=True):
    """judge every case in parallel and report the verdicts; judge(L, case) -> (verdict, text, (it, outs) | None).  Literals the code
    compares with a generic word of a line are put there in a second round."""
    cases = list(cases)

    def one(case):
        L.fns = set()
        MAGIC.clear()
        v, t, o = judge(L, case)
        mg = sorted(m for m in MAGIC if isinstance(m[0], str))
        w, span = where(L.P, o[0]) if o else ('', None)
        return v, t, w, span, route(L.P, o[0])[-4:] if o else [], sorted(L.fns), mg
    n = {'ok': 0, 'bad': 0, 'undet': 0}
    nxt, seen = [], {c.prefix + c.text for c in cases}
    for case, (v, t, w, span, rt, fns, mg) in zip(cases, pmap(one, cases)):
        n[v] += 1
        L.stats['cases'] += 1
        L.stats['undetermined' if v == 'undet' else 'decided'] += 1
        ctx.fnset |= set(fns)
        wh = case.what if hasattr(case, 'what') else what
        if again and v == 'ok':
            for path, lit in mg:
                for x in substitutes(case.prefix, lit):
                    y = substitute(case.text, path, x)
                    if y is not None and case.prefix + y not in seen:
                        seen.add(case.prefix + y)
                        c = Case(L.P, case.prefix, case.kind, case.variant, y, case.dflt)
                        for k in vars(case):
                            if k not in vars(c):
                                setattr(c, k, getattr(case, k))
                        nxt.append(c)
        if v == 'undet':
            if os.environ.get('VERIF_DEBUG'):
                print('undet', wh, case.prefix + case.text[:200], t)
            continue
        key = '%s:%s%s' % (wh, case.prefix, re.sub(r':[osz]\}', '}', re.sub(r'\s+', ' ', case.text))[:120])
        ctx.check(v == 'ok', key, 'line `%s%s` %s (in %s)' % (case.prefix, case.text[:200], t, w), span)
        if len(ctx.samples) < 12 and v == 'ok' and len(case.text) < 140 and (len(ctx.samples) < 4 or len(case.text) > 40):
            ctx.samples.append({'line': case.prefix + case.text, 'verdict': wh + ' ok', 'through': rt})
    if nxt:
        ctx.cov['special_words'] = ctx.cov.get('special_words', 0) + len(nxt)
        if os.environ.get('VERIF_DEBUG'):
            for c in nxt:
                print('special', c.prefix + c.text[:160])
        m = batch(ctx, L, nxt, what, judge, False)
        n = {k: n[k] + m[k] for k in n}
    return n
