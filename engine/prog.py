"""Loading of the driver's JSON: types, instances, constants, CFG helpers."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = {int(k): v for k, v in d['types'].items()}
        self.allocs = {int(k): v for k, v in d['allocs'].items()}
        self.insts = d['insts']
        self.items = d['items']
        self.generic = d['generic']
        self.by_name = {}
        for i, x in enumerate(self.insts):
            x['i'] = i
            self.by_name.setdefault(x['n'], []).append(x)
        self._cfg = {}

    # ---- types -------------------------------------------------------
    def ty(self, t):
        return self.types[t]

    def deref_ty(self, t):
        k = self.types[t]
        while k['k'] in ('ref', 'ptr'):
            t = k['e']
            k = self.types[t]
        return t

    def is_adt(self, t, frag=None):
        k = self.types[t]
        return k['k'] == 'adt' and (frag is None or short(k['n']) == frag)

    def tname(self, t):
        k = self.types[t]
        kk = k['k']
        if kk in ('int', 'uint', 'float'):
            return k['n']
        if kk == 'adt':
            return k['s']
        if kk in ('ref', 'ptr'):
            return '&' + self.tname(k['e'])
        if kk == 'slice':
            return '[' + self.tname(k['e']) + ']'
        if kk == 'array':
            return '[%s;%s]' % (self.tname(k['e']), k['n'])
        if kk == 'tuple':
            return '(' + ','.join(self.tname(x) for x in k['ts']) + ')'
        if kk in ('closure', 'fndef'):
            return k['n']
        return kk if kk != 'other' else k['s']

    def find_ty(self, pred):
        for i, t in self.types.items():
            if pred(t):
                return i
        return None

    def int_range(self, t):
        k = self.types[t]
        if k['k'] == 'bool':
            return (0, 1)
        if k['k'] == 'char':
            return (0, 0x10FFFF)
        n = k.get('n')
        if k['k'] == 'uint':
            b = {'usize': 64, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128}[n]
            return (0, 2 ** b - 1)
        if k['k'] == 'int':
            b = {'isize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128}[n]
            return (-2 ** (b - 1), 2 ** (b - 1) - 1)
        return None

    def size_of_int(self, t):
        k = self.types[t]
        if k['k'] in ('bool',):
            return 1
        if k['k'] == 'char':
            return 4
        return {'usize': 8, 'isize': 8}.get(k['n']) or int(k['n'][1:]) // 8

    # ---- instances ---------------------------------------------------
    def local_fns(self):
        return [x for x in self.insts if x['local'] and x['body']]

    def item_info(self, name):
        for it in self.items:
            if it['n'] == name:
                return it
        return None


def short(n):
    """last path segment of a def path, generics removed"""
    return n.split('<')[0].rstrip(':').split('::')[-1]


def succs(term):
    k = term[0]
    if k == 'goto':
        return [term[1]]
    if k == 'switch':
        return [b for _, b in term[2]] + [term[3]]
    if k == 'drop':
        return [term[2]]
    if k == 'call':
        return [term[4]] if term[4] is not None else []
    if k == 'assert':
        return [term[5]]
    return []


def _use_op(o, s):
    if o[0] in ('c', 'm'):
        s.add(o[1][0])
        for e in o[1][1]:
            if isinstance(e, list) and e[0] == 'i':
                s.add(e[1])


def _use_place(p, s):
    for e in p[1]:
        if isinstance(e, list) and e[0] == 'i':
            s.add(e[1])
    if p[1]:
        s.add(p[0])


def stmt_uses(st):
    s = set()
    d = None
    if st[0] == '=':
        p, r = st[1], st[2]
        _use_place(p, s)
        if not p[1]:
            d = p[0]
        k = r[0]
        if k == 'use':
            _use_op(r[1], s)
        elif k in ('ref',):
            s.add(r[2][0]); _use_place(r[2], s)
        elif k in ('addr', 'len', 'discr'):
            s.add(r[1][0]); _use_place(r[1], s)
        elif k == 'cast':
            _use_op(r[2], s)
        elif k in ('bin', 'cbin'):
            _use_op(r[2], s); _use_op(r[3], s)
        elif k == 'un':
            _use_op(r[2], s)
        elif k == 'repeat':
            _use_op(r[1], s)
        elif k == 'agg':
            for o in r[2]:
                _use_op(o, s)
    return s, d


def term_uses(t):
    s = set()
    d = None
    k = t[0]
    if k == 'switch':
        _use_op(t[1], s)
    elif k == 'drop':
        pass
    elif k == 'call':
        _use_op(t[1], s)
        for a in t[2]:
            _use_op(a, s)
        _use_place(t[3], s)
        if not t[3][1]:
            d = t[3][0]
    elif k == 'assert':
        _use_op(t[1], s)
        for a in t[4]:
            _use_op(a, s)
    elif k == 'return':
        s.add(0)
    return s, d


class Cfg:
    """liveness, loop headers, reverse post order, drop flags for one body"""

    def __init__(self, prog, body):
        self.prog = prog
        self.body = body
        B = body['blocks']
        n = len(B)
        # drop flags: unnamed bools whose every switch only guards a drop
        cand = {}
        for bi, b in enumerate(B):
            t = b['t']
            if t[0] == 'switch' and t[1][0] in ('c', 'm') and not t[1][1][1]:
                l = t[1][1][0]
                if prog.types[body['locals'][l]]['k'] == 'bool' and str(l) not in body['names']:
                    okk = any(self._drops_to(B, x) for _, x in t[2]) or self._drops_to(B, t[3])
                    cand.setdefault(l, []).append(okk)
        # ... and that are only ever assigned constants
        for b in B:
            for s in b['s']:
                if s[0] == '=' and not s[1][1] and s[1][0] in cand and not (s[2][0] == 'use' and s[2][1][0] == 'k'):
                    cand[s[1][0]].append(False)
                if s[0] == '=' and s[2][0] in ('ref', 'addr'):
                    l = s[2][2][0] if s[2][0] == 'ref' else s[2][-1][0]
                    if l in cand:
                        cand[l].append(False)
            t = b['t']
            if t[0] == 'call' and t[3][0] in cand:
                cand[t[3][0]].append(False)
        self.drop_flags = {l for l, v in cand.items() if all(v)}
        self.succ = []
        for b in B:
            t = b['t']
            if t[0] == 'switch' and t[1][0] in ('c', 'm') and not t[1][1][1] and t[1][1][0] in self.drop_flags:
                # the drop / no-drop diamond is irrelevant: take one way
                self.succ.append([t[3]])
            else:
                self.succ.append(succs(t))
        # rpo
        seen = set(); order = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onstack = {0}
        self.headers = set()
        while stack:
            v, it = stack[-1]
            for w in it:
                if w in onstack:
                    self.headers.add(w)
                if w not in seen:
                    seen.add(w); onstack.add(w)
                    stack.append((w, iter(self.succ[w])))
                    break
            else:
                stack.pop(); onstack.discard(v); order.append(v)
        self.rpo = {v: i for i, v in enumerate(reversed(order))}
        self.reach = seen
        # liveness (borrowed locals stay live: a ref may read them)
        borrowed = set()
        for b in B:
            for s in b['s']:
                if s[0] == '=' and s[2][0] in ('ref', 'addr'):
                    borrowed.add(s[2][2][0] if s[2][0] == 'ref' else s[2][1][0])
        self.borrowed = borrowed
        gen = []; kill = []
        for b in B:
            g = set(); k = set()
            for s in b['s']:
                u, d = stmt_uses(s)
                g |= (u - k)
                if d is not None:
                    k.add(d)
            u, d = term_uses(b['t'])
            g |= (u - k)
            if d is not None:
                k.add(d)
            gen.append(g); kill.append(k)
        live = [set() for _ in B]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                v = gen[i] | (o - kill[i])
                if v != live[i]:
                    live[i] = v; ch = True
        self.live = live
        # natural loop membership (blocks that can reach the header from inside)
        pred = [[] for _ in B]
        for i in range(n):
            for s in self.succ[i]:
                pred[s].append(i)
        self.loops = {}
        for h in self.headers:
            body_ = {h}
            # back edges: preds of h with rpo >= h
            work = [p for p in pred[h] if p in self.rpo and self.rpo[p] >= self.rpo[h]]
            while work:
                x = work.pop()
                if x in body_:
                    continue
                body_.add(x)
                work.extend(p for p in pred[x] if p in self.rpo)
            self.loops[h] = body_

    def _drops_to(self, B, x):
        for _ in range(4):
            b = B[x]
            if b['t'][0] == 'drop':
                return True
            if b['t'][0] == 'goto' and not [s for s in b['s'] if s[0] == '=']:
                x = b['t'][1]
            else:
                return False
        return False
