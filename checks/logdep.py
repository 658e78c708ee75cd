"""No value or effect depends on the configuration of the logging facade: branches on it may only lead to diagnostics."""
import re
from core import *
from prog import succs, stmt_uses, term_uses
from props.c03 import Fn

SOURCE = re.compile(r'\blog::(max_level|logger)$|__private_api::enabled|Log>::enabled$|Log::enabled$')


def unit(P, t):
    k = P.types[t]
    return k['k'] == 'never' or k['k'] == 'tuple' and not k.get('ts')


class Flow:
    def __init__(self, P, x):
        self.P, self.x = P, x
        self.F = Fn(P, x)
        self.B = x['body']['blocks']
        self.loc = x['body']['locals']
        n = len(self.B)
        self.succ = [succs(b['t']) for b in self.B]
        # post-dominators over the normal edges, with one virtual exit
        full = set(range(n + 1))
        pd = [full] * n + [{n}]
        exits = lambda i: self.succ[i] or [n]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                new = set.intersection(*[pd[s] for s in exits(i)]) | {i}
                if new != pd[i]:
                    pd[i], ch = new, True
        self.pd = pd
        self.live = [set() for _ in range(n + 1)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                s = set().union(*[self.live[j] for j in self.succ[i]]) if self.succ[i] else set()
                u, d = term_uses(self.B[i]['t'])
                s = (s - {d}) | u
                for st in reversed(self.B[i]['s']):
                    u, d = stmt_uses(st)
                    s = (s - {d}) | u
                if s != self.live[i]:
                    self.live[i], ch = s, True

    def join(self, bi):
        """(blocks only one outcome of the branch runs, the block where all meet)"""
        n = len(self.B)
        c = self.pd[bi] - {bi}
        j = max(c, key=lambda k: len(self.pd[k]) if k < n else 0) if c else n
        reg, todo = set(), list(self.succ[bi])
        while todo:
            k = todo.pop()
            if k == j or k in reg:
                continue
            reg.add(k)
            todo += self.succ[k]
        return reg, j

    def run(self, params, returns, sources):
        """(problems, tainted arguments of local callees, return value tainted)"""
        P = self.P
        tainted, probs, out = set(params), [], {}
        regions = {}
        size = -1
        while size != (len(tainted), len(regions)):
            size = (len(tainted), len(regions))
            for bi, b in enumerate(self.B):
                for s in b['s']:
                    u, _ = stmt_uses(s)
                    if s[0] == '=' and u & tainted:
                        self.write(s[1], tainted, probs, s[3] if len(s) > 3 else b.get('sp'))
                t = b['t']
                if t[0] == 'call':
                    c = self.F.callee(t)
                    hit = [i for i, a in enumerate(t[2]) if a[0] in ('c', 'm') and a[1][0] in tainted]
                    src = c is not None and (c['crate'] == 'log' and SOURCE.search(re.sub('<.*', '', c['d']) or c['n']) or c['i'] in sources)
                    if src or hit:
                        self.write(t[3], tainted, probs, b.get('sp'))
                    if hit and not src and c is not None:
                        if c['local'] and c['body']:
                            out.setdefault(c['i'], set()).update(i + 1 for i in hit)
                        elif c['crate'] != 'log':
                            for i, a in enumerate(t[2]):
                                if i not in hit and a[0] in ('c', 'm'):
                                    k = P.types[self.loc[a[1][0]]]
                                    if k['k'] == 'ref' and k.get('mut'):
                                        r = self.F.base(a)
                                        if r:
                                            self.write([r[0], []], tainted, probs, b.get('sp'))
                if t[0] == 'switch' and t[1][0] in ('c', 'm') and t[1][1][0] in tainted and bi not in regions:
                    regions[bi] = self.join(bi)
            for bi, (reg, j) in regions.items():
                alive = self.live[j] if j < len(self.B) else {0}
                for k in sorted(reg):
                    b = self.B[k]
                    ws = [(s[1], s) for s in b['s'] if s[0] == '=']
                    for s in b['s']:
                        if s[0] == '=' and s[2][0] == 'ref' and s[2][1] != 'Shared':
                            ws.append((s[2][2], s))
                    if b['t'][0] == 'call':
                        ws.append((b['t'][3], None))
                    for pl, s in ws:
                        l = pl[0]
                        sp = s[3] if s and len(s) > 3 else b.get('sp')
                        if '*' in pl[1]:
                            ds = self.F.defs.get(l, [])
                            if not ds or any(d[0] not in reg for d in ds):
                                probs.append(('writes through a reference', sp))
                            continue
                        if l in alive and not unit(P, self.loc[l]):
                            self.write([l, []], tainted, probs, sp)
        return probs, out, 0 in tainted

    def write(self, pl, tainted, probs, sp):
        if '*' in pl[1]:
            probs.append(('writes through a reference', sp))
        elif not unit(self.P, self.loc[pl[0]]):
            tainted.add(pl[0])


def problems(P):
    """[(function, text, span)] and the number of branches on the logging configuration"""
    flows, params, sources, res, n = {}, {}, set(), {}, 0
    todo = [x['i'] for x in P.insts if x['local'] and x['body']]
    users = {}
    for i in todo:
        for b in P.insts[i]['body']['blocks']:
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'k':
                ty = P.types[t[1][1]['t']]
                if ty.get('inst') is not None:
                    users.setdefault(ty['inst'], set()).add(i)
    start = {u for x in P.insts if x['crate'] == 'log' and SOURCE.search(re.sub('<.*', '', x['d']) or x['n']) for u in users.get(x['i'], ())}
    n = len(start)
    work = sorted(start)
    while work:
        i = work.pop()
        f = flows.get(i) or flows.setdefault(i, Flow(P, P.insts[i]))
        probs, out, ret = f.run(params.get(i, set()), None, sources)
        nm = pname(P, P.insts[i]) if 'pname' in globals() else P.insts[i]['n'].replace('webrtc_sdp::', '')
        res[i] = [(nm, t, sp) for t, sp in probs]
        if ret:
            k = P.types[f.loc[0]]['k']
            if k == 'bool' or '{closure' in P.insts[i]['n']:
                if i not in sources:
                    sources.add(i)
                    work += sorted(users.get(i, ()))
            else:
                res[i].append((nm, 'returns a value that depends on the logging configuration', P.insts[i]['body']['span']))
        for c, ps in out.items():
            if not ps <= params.get(c, set()):
                params.setdefault(c, set()).update(ps)
                work.append(c)
    return [p for i in sorted(res) for p in res[i]], n
