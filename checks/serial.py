"""Serialized forms: the tree a serializer is given, compared field by field with the value."""
import copy
from api import *


class SerInterp(TInterp):
    """addresses of the standard library are serialized as their text"""
    def call_inst(self, F, bb, st, inst, args, t, sp):
        m = re.search(r'::Serialize for std::net::(IpAddr|Ipv4Addr|Ipv6Addr)>::serialize', inst['n'])
        if m:
            dty = self.models.dty(F, t, inst)
            out = self.models.payload_ty(dty, 'Ok')
            x = self.models.peel(st, args[0])
            txt = mk('disp', x, None)
            i = next(i for i, v in enumerate(self.p.types[out]['v']) if v['n'] == 'Str')
            return [(st, self.models.enum_of(dty, 'Ok', mk('adt', out, i, txt)))]
        return super().call_inst(F, bb, st, inst, args, t, sp)


def probed(ctx):
    """a context that shares the results of ctx and analyses the program with the probe serializer"""
    sub = copy.copy(ctx)
    sub.progs = {'default': ctx.prog('probe')}
    return sub


class Serial:
    def __init__(self, A):
        self.A, self.P = A, A.P
        self.out = []

    def probe(self, name):
        return next(x for x in self.P.insts if x['local'] and x['n'].endswith('verif_probe::probe_' + name))

    def trees(self, f, st, x):
        """[(it, state, tree or None)]"""
        it = SerInterp(self.P, 96)
        outs = it.root(f, [box(x)], st.copy())[0]
        self.A.fns |= {self.P.insts[i]['n'] for i, _ in it.blocks_seen if self.P.insts[i]['local'] and 'verif_probe::' not in self.P.insts[i]['d']}
        res = []
        for s, r in outs:
            r = self.A.strip(it, s, r)
            if it.vname(r) != 'Ok':
                res.append((it, s, None))
                continue
            res.append((it, s, self.A.strip(it, s, r.a[2])))
        return res

    def put(self, ok, path, text):
        self.out.append((ok, path, text))

    def kind(self, o):
        return self.P.types[o.a[0]]['v'][o.a[1]]['n'] if o.op == 'adt' else None

    def list(self, it, st, o):
        return [self.A.strip(it, st, x) for x in self.A.elems(it, st, o)]

    def keys(self, it, st, o, path):
        """field name -> tree of a serialized struct"""
        A, d = self.A, {}
        for pr in self.list(it, st, A.strip(it, st, o.a[3])):
            key = A.strip(it, st, pr.a[0]) if pr.op == 'tup' else mk('unk')
            if key.op != 'str':
                self.put(None, path, 'key')
                return None
            if key.a[0] in d:
                self.put(False, path, 'has two fields `%s`' % key.a[0])
            d[key.a[0]] = A.strip(it, st, pr.a[1])
        return d

    def error(self, it, st, x, v, o, path):
        """errors: their kind, the text of the error they contain, the line and its number"""
        A = self.A
        fs = dict(zip([f[0] for f in v['f']], x.a[2:]))
        want = {'type': S(v['n']), 'line_number': fs.get('line_number')}
        if 'line' in fs:
            want['line'] = fs['line']
        e = fs.get('error')
        want['message'] = A.strip(it, st, e) if e is not None else fs.get('message')
        d = self.keys(it, st, o, path)
        if d is None:
            return
        path += '.' + v['n']
        for key, y in sorted(want.items()):
            if y is None:
                continue
            if key not in d:
                self.put(False, path + '.' + key, 'is not serialized (keys: %s)' % ' '.join(d))
                continue
            t = d.pop(key)
            t = A.strip(it, st, t.a[2]) if self.kind(t) in ('Str', 'Uint', 'Int') else t
            y = A.strip(it, st, y)
            if key == 'message' and e is not None:
                ts = it.models.disp_multi(None, 0, st.copy(), y, y.a[0]) if y.op == 'adt' else []
                ts = {A.strip(it, st, it.simp(s, z)) for s, z in ts}
                b = None if len(ts) != 1 else A.same(it, st, t, next(iter(ts)))
                y = next(iter(ts), y)
            else:
                b = A.same(it, st, t, y)
            self.put(b, path + '.' + key, 'is serialized as `%s` instead of `%s`' % (say(self.P, t, 5)[:80], say(self.P, y, 5)[:80]))
        for key in d:
            self.put(False, path, 'has an additional field `%s`' % key)

    def walk(self, it, st, x, o, path):
        """does the tree o describe the value x?"""
        A = self.A
        x, o = A.strip(it, st, x), A.strip(it, st, o)
        k = self.kind(o)
        if k is None:
            return self.put(None, path, 'unknown tree')
        sub = lambda i: A.strip(it, st, o.a[2 + i])

        def need(*ks):
            if k in ks:
                return True
            self.put(False, path, 'is serialized as %s instead of %s' % (k, ' or '.join(ks)))
            return False
        if x.op == 'adt':
            T = self.P.types[x.a[0]]
            n = short((T.get('n') or '').split('<')[0])
            v = T['v'][x.a[1]]
            fs = v['f']
            if n == 'Option':
                if not need('None' if v['n'] == 'None' else 'Some'):
                    return
                if v['n'] == 'Some':
                    return self.walk(it, st, x.a[2], self.list(it, st, sub(0))[0], path)
                return self.put(True, path, '')
            if n in ('IpAddr', 'Ipv4Addr', 'Ipv6Addr'):
                if need('Str'):
                    t = sub(0)
                    y = A.strip(it, st, t.a[0]) if t.op == 'disp' else t
                    self.put(True if y is x else A.same(it, st, x, y) if t.op == 'disp' else None, path, 'is serialized as `%s`' % say(self.P, sub(0), 4)[:80])
                return
            if n == 'SdpParserError':
                return self.error(it, st, x, v, o, path) if need('Struct') else None
            if n == 'SdpParserInternalError':
                return self.put(None, path, 'error')
            enum = len(T['v']) > 1 or T.get('ak') == 'Enum'
            if enum:
                if not need('Variant'):
                    return
                w = sub(1)
                self.put(w.op == 'str' and w.a[0] == v['n'] if w.op == 'str' else None, path,
                         'of kind %s is serialized as kind %s' % (v['n'], say(self.P, w, 3)))
                o = self.list(it, st, sub(2))[0]
                k = self.kind(o)
                path += '.' + v['n']
                if not fs:
                    return self.put(k == 'Unit', path, 'has content %s' % k)
                if len(fs) == 1 and fs[0][0] == '0':
                    return self.walk(it, st, x.a[2], o, path)
            if fs and not fs[0][0].isdigit():
                if not need('Struct'):
                    return
                d = self.keys(it, st, o, path)
                if d is None:
                    return
                for f, y in zip(fs, x.a[2:]):
                    if f[0] not in d:
                        self.put(False, path + '.' + f[0], 'is not serialized (keys: %s)' % ' '.join(d))
                        continue
                    self.walk(it, st, y, d.pop(f[0]), path + '.' + f[0])
                for e in d:
                    self.put(False, path, 'has an additional field `%s`' % e)
                return
            if len(fs) == 1:
                if k == 'Newtype':
                    o = self.list(it, st, A.strip(it, st, o.a[3]))[0]
                return self.walk(it, st, x.a[2], o, path)
            if not need('Seq'):
                return
            ys = self.list(it, st, A.strip(it, st, o.a[2]))
            if len(ys) != len(fs):
                return self.put(False, path, 'has %d elements instead of %d' % (len(ys), len(fs)))
            for i, (a, b) in enumerate(zip(x.a[2:], ys)):
                self.walk(it, st, a, b, '%s.%d' % (path, i))
            return
        if x.op in ('arr', 'tup'):
            if not need('Seq'):
                return
            ys = self.list(it, st, sub(0))
            if len(ys) != len(x.a):
                return self.put(False, path, 'has %d elements instead of %d' % (len(ys), len(x.a)))
            self.put(True, path, '')
            for i, (a, b) in enumerate(zip(x.a, ys)):
                self.walk(it, st, a, b, '%s[%d]' % (path, i))
            return
        if x.op in ('str', 'cat', 'hole', 'lower', 'upper', 'spec', 'disp'):
            if need('Str'):
                self.put(A.same(it, st, x, sub(0)), path, 'is serialized as `%s` instead of `%s`' % (
                    say(self.P, sub(0), 4)[:60], say(self.P, x, 4)[:60]))
            return
        if k in ('Uint', 'Int', 'Bool', 'Float'):
            y = sub(0)
            if k == 'Float' and y.op == 'cast' and x.op != 'cast':
                y = A.strip(it, st, y.a[0])
            b = A.same(it, st, x, y)
            if b is None and y is x:
                b = True
            return self.put(b, path, 'is serialized as `%s` instead of `%s`' % (say(self.P, y, 4)[:60], say(self.P, x, 4)[:60]))
        self.put(None, path, 'value %s' % x.op)
