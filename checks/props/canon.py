"""Canonical rendering of MIR bodies, independent of numbering of types, allocations and instances."""
import json
import re

NUM = re.compile(r'id: \d+|Span \{[^}]*\}|repr: "[^"]*"|\w+Id\(\d+|DefId \{[^}]*\}')


class Canon:
    def __init__(self, P):
        self.P = P
        self.tc = {}

    def ty(self, t):
        if t in self.tc:
            return self.tc[t]
        k = self.P.types[t]
        self.tc[t] = '?rec'
        if k['k'] in ('fndef', 'closure'):
            s = k['k'] + ':' + self.cname(k['n']) + ':' + (self.P.insts[k['inst']]['n'] if k.get('inst') is not None else '')
        else:
            s = self.P.tname(t)
        self.tc[t] = s
        return s

    def cname(self, n):
        return n

    def alloc(self, a, d=3):
        x = self.P.allocs.get(a)
        if x is None:
            return 'alloc?'
        if d == 0:
            return 'alloc'
        if isinstance(x, dict):
            r = []
            for k in sorted(x):
                if k == 'p':
                    r.append('p' + str([(o, self.alloc(y, d - 1)) for o, y in x[k]]))
                elif k == 'fn' or k == 'inst':
                    v = x[k]
                    r.append(k + (self.P.insts[v]['n'] if isinstance(v, int) else str(v)))
                else:
                    r.append('%s=%s' % (k, x[k] if not isinstance(x[k], (dict,)) else json.dumps(x[k], sort_keys=True)))
            return '{%s}' % ','.join(r)
        return str(x)

    def val(self, o):
        if isinstance(o, dict):
            r = []
            for k in sorted(o):
                v = o[k]
                if k == 't' and isinstance(v, int):
                    r.append('t:' + self.ty(v))
                elif k == 'p' and isinstance(v, list):
                    r.append('p:' + str([(a, self.alloc(b)) for a, b in v]))
                else:
                    r.append('%s:%s' % (k, self.val(v)))
            return '{' + ','.join(r) + '}'
        if isinstance(o, list):
            # field / downcast projections carry a type id
            if len(o) == 3 and o[0] in ('f', 'i') and isinstance(o[2], int):
                return '[%s,%s,%s]' % (o[0], o[1], self.ty(o[2]))
            if len(o) and o[0] == 'cast':
                return '[cast,%s]' % ','.join(self.val(x) if not (isinstance(x, int) and x in self.P.types) else self.ty(x) for x in o[1:])
            if len(o) and o[0] == 'agg':
                return '[agg,%s]' % ','.join(self.agg(x) for x in o[1:])
            return '[' + ','.join(self.val(x) for x in o) + ']'
        if isinstance(o, str) and 'id: ' in o:
            return NUM.sub('', o)
        return str(o)

    def agg(self, x):
        if isinstance(x, list) and x and x[0] in ('adt', 'closure', 'array', 'tuple', 'rawptr'):
            return '[' + ','.join(self.ty(y) if isinstance(y, int) and i == 1 else self.val(y) for i, y in enumerate(x)) + ']'
        return self.val(x)

    def body(self, b):
        out = ['argc %d' % b['argc'], 'L ' + ' '.join(self.ty(t) for t in b['locals'])]
        for blk in b['blocks']:
            for s in blk['s']:
                out.append(self.val(s[:3] if s[0] == '=' else s[:1]))
            t = blk['t']
            if t[0] == 'assert' and str(t[3]).startswith(('Misaligned', 'NullPointer')):
                t = ['uncheck', t[1], t[5]]
            out.append('T ' + self.val(t))
        return '\n'.join(out)

    def calls(self, b):
        """multiset of (callee, constants) — used where compiler-inserted checks shift the blocks"""
        out = []
        for blk in b['blocks']:
            for s in blk['s']:
                if s[0] == '=' and s[2][0] in ('bin', 'agg', 'cast', 'cbin') and not str(s).count('BitAnd'):
                    if s[2][0] == 'cast' and 'Transmute' in str(s[2][1]) or s[2][0] == 'bin' and s[2][1] in ('Sub', 'Eq', 'BitAnd', 'Ne', 'BitOr') or s[2][0] == 'cast' and 'PtrToPtr' in str(s[2][1]):
                        continue
                    out.append(s[2][0] + ' ' + str(s[2][1] if s[2][0] != 'agg' else self.agg(s[2][1])))
            if blk['t'][0] == 'call':
                out.append('call ' + self.val(blk['t'][1]))
        return sorted(out)
