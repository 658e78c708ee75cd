"""C03: every loop of the crate is driven by a finite resource, and there is no recursion."""
from core import *

LEVEL = 'proof'
RULE = ('for every strongly connected component of every MIR control-flow graph: after deleting the edges that consume '
        'an element of a finite std iterator created outside the component, remove an element of a vector that is not '
        'refilled inside it, or advance a counter towards a tested bound, no cycle may remain; the call graph (including '
        'functions passed as values and formatting callbacks) is acyclic; no endless std iterator is constructed')
TRUSTED = ['rustc (MIR construction, callee resolution)', 'std iterators over slices, vectors, strings, options and '
           'ranges are finite and std adapters of finite iterators are finite', 'std collection and string methods terminate']

ENDLESS = ('std::iter::repeat', 'std::iter::repeat_with', 'std::iter::from_fn', 'std::iter::successors', 'std::ops::RangeFrom',
           'std::iter::Cycle', 'std::iter::Repeat', 'std::iter::RepeatWith', 'std::iter::FromFn', 'std::iter::Successors')
SAFE_VEC = {'remove', 'swap_remove', 'pop', 'is_empty', 'len', 'iter', 'first', 'last', 'get', 'index', 'truncate', 'clear',
            'drain', 'split_off', 'deref', 'as_slice', 'retain', 'pop_front', 'pop_back', 'front', 'back'}


def sccs(nodes, succ):
    """Tarjan, iterative"""
    idx, low, st, on, out = {}, {}, [], set(), []
    n = [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter([w for w in succ(r) if w in nodes]))]
        idx[r] = low[r] = n[0]; n[0] += 1
        st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter([y for y in succ(w) if y in nodes])))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = set()
                while True:
                    w = st.pop(); on.discard(w); c.add(w)
                    if w == v:
                        break
                out.append(c)
    return out


class Fn:
    def __init__(self, P, x):
        self.P = P
        self.x = x
        self.B = x['body']['blocks']
        self.loc = x['body']['locals']
        self.defs = {}          # local -> [(bb, kind, payload)]
        for bi, b in enumerate(self.B):
            for s in b['s']:
                if s[0] == '=':
                    self.defs.setdefault(s[1][0], []).append((bi, 'st' if not s[1][1] else 'part', s[2]))
            t = b['t']
            if t[0] == 'call':
                self.defs.setdefault(t[3][0], []).append((bi, 'call', t))

    def callee(self, t):
        if t[0] == 'call' and t[1][0] == 'k':
            ty = self.P.types[t[1][1]['t']]
            if ty.get('inst') is not None:
                return self.P.insts[ty['inst']]
        return None

    def base(self, op, depth=8):
        """root place of a reference operand: (local, derefs stripped)"""
        if op[0] not in ('c', 'm'):
            return None
        l = op[1][0]
        proj = [e for e in op[1][1] if e != '*']
        for _ in range(depth):
            ds = self.defs.get(l, [])
            if len(ds) == 1 and ds[0][1] == 'st' and ds[0][2][0] == 'ref':
                pl = ds[0][2][2]
                proj = [e for e in pl[1] if e != '*'] + proj
                l = pl[0]
                continue
            if len(ds) == 1 and ds[0][1] == 'st' and ds[0][2][0] == 'use' and ds[0][2][1][0] in ('c', 'm'):
                pl = ds[0][2][1][1]
                proj = [e for e in pl[1] if e != '*'] + proj
                l = pl[0]
                continue
            break
        return l, str(proj)


ADAPT = ('Map', 'Filter', 'FilterMap', 'Enumerate', 'Skip', 'SkipWhile', 'StepBy', 'Peekable', 'Inspect', 'Chain', 'Rev', 'Copied',
         'Cloned', 'Fuse', 'FlatMap', 'Flatten', 'MapWhile')


def endless_name(s):
    s = s.lstrip('&').replace('mut ', '')
    top, _, rest = s.partition('<')
    if any(top == e or top.endswith(e.split('::')[-1]) and top.startswith('std::') for e in ENDLESS):
        return True
    if top.split('::')[-1] in ADAPT and top.startswith('std::iter::'):
        return endless_name(rest)
    return False


def endless(P, ty):
    return endless_name(P.tname(ty))


def method(inst):
    return short(inst['d'].split('::<')[0]) if not inst['n'].startswith('<') else inst['n'].split('>::')[-1].split('::<')[0]


def progress_edges(F, comp):
    """edges / blocks whose removal is justified by consumption of a finite resource"""
    rem_e, rem_b, why = set(), set(), []
    assigned = {}
    for b in comp:
        for s in F.B[b]['s']:
            if s[0] == '=':
                assigned.setdefault(s[1][0], []).append((b, s))
        t = F.B[b]['t']
        if t[0] == 'call':
            assigned.setdefault(t[3][0], []).append((b, t))
    for b in comp:
        t = F.B[b]['t']
        c = F.callee(t)
        if c is None:
            continue
        m = method_name(c)
        foreign = not c['local']
        if foreign and m in ('next', 'next_back', 'pop', 'pop_front', 'pop_back', 'nth', 'next_if') and t[2]:
            src = F.base(t[2][0])
            if src is None:
                continue
            l, proj = src
            # iterator itself must not be re-created inside the component
            if any(not isinstance(a[1][0], str) or a[1][0] != '=' or not a[1][1][1] for a in assigned.get(l, [])):
                continue
            if endless(F.P, F.loc[l]):
                continue
            if m.startswith('pop') and not vec_only_shrinks(F, comp, (l, proj)):
                continue
            # Some-edges of the switch on the result
            res = t[3]
            for e in some_edges(F, comp, b, res):
                rem_e.add(e)
                why.append('%s at bb%d' % (m, b))
        if foreign and m in ('remove', 'swap_remove') and t[2] and 'Vec' in c['n']:
            src = F.base(t[2][0])
            if src and vec_only_shrinks(F, comp, src):
                rem_b.add(b)
                why.append('%s at bb%d' % (m, b))
    # counters
    for l, asg in assigned.items():
        ty = F.P.types[F.loc[l]]
        if ty['k'] not in ('int', 'uint'):
            continue
        incs = set()
        dirs = set()
        ok = True
        for b, s in asg:
            d = step(F, comp, l, s)
            if d is None:
                ok = False
                break
            if d != 0:
                incs.add(b); dirs.add(d)
        if not ok or len(dirs) != 1 or not incs:
            continue
        d = dirs.pop()
        tests = bound_tests(F, comp, l, d, assigned)
        if not tests:
            continue
        # every cycle through the component passes an increment and a test
        rest = comp - tests
        if any(cyc(F, rest)):
            continue
        rem_b |= incs
        why.append('counter _%d' % l)
    return rem_e, rem_b, why


def cyc(F, nodes):
    for c in sccs(nodes, lambda v: succs(F.B[v]['t'])):
        v = next(iter(c))
        if len(c) > 1 or v in succs(F.B[v]['t']):
            yield c


def vec_only_shrinks(F, comp, src):
    l, proj = src
    for b in comp:
        t = F.B[b]['t']
        if t[0] != 'call':
            continue
        for i, a in enumerate(t[2]):
            if F.base(a) == src and F.P.types[opty(F, a)]['k'] == 'ref':
                c = F.callee(t)
                if c is None:
                    return False
                if F.P.types[opty(F, a)].get('mut') and method_name(c) not in SAFE_VEC:
                    return False
        if t[3][0] == l and [e for e in t[3][1] if e != '*'] == []:
            return False
    for b in comp:
        for s in F.B[b]['s']:
            if s[0] == '=' and s[1][0] == l and not [e for e in s[1][1] if e != '*']:
                return False
    return True


def opty(F, op):
    # only used for plain locals
    return F.loc[op[1][0]]


def some_edges(F, comp, b, res):
    """edges taken when the Option in `res` is Some (followed through moves, `?`, unwrap, ok_or, map)"""
    out = []
    locs = {res[0]: 1}      # local -> discriminant value of success
    discr = {}
    work = [F.B[b]['t'][4]]
    seen = set()
    while work:
        x = work.pop()
        if x in seen or x not in comp:
            continue
        seen.add(x)
        for s in F.B[x]['s']:
            if s[0] != '=':
                continue
            if s[2][0] == 'use' and s[2][1][0] in ('c', 'm') and s[2][1][1][0] in locs and not s[2][1][1][1] and not s[1][1]:
                locs[s[1][0]] = locs[s[2][1][1][0]]
            if s[2][0] == 'discr' and s[2][1][0] in locs and not s[2][1][1]:
                discr[s[1][0]] = locs[s[2][1][0]]
        t = F.B[x]['t']
        if t[0] == 'switch' and t[1][0] in ('c', 'm') and t[1][1][0] in discr and not t[1][1][1]:
            want = discr[t[1][1][0]]
            hit = [y for v, y in t[2] if int(v) == want]
            out.extend((x, y) for y in (hit or [t[3]]))
            continue
        if t[0] == 'call':
            c = F.callee(t)
            m = method_name(c) if c is not None and not c['local'] else ''
            a = F.base(t[2][0]) if t[2] else None
            if a and a[0] in locs:
                if m in ('unwrap', 'expect'):
                    out.append((x, t[4]))
                    continue
                if m in ('ok_or', 'ok_or_else', 'branch'):
                    locs[t[3][0]] = 0
                elif m in ('map', 'as_ref', 'copied', 'cloned', 'as_deref'):
                    locs[t[3][0]] = locs[a[0]]
                elif m in ('is_some', 'is_none', 'is_ok', 'is_err'):
                    want = 1 if m in ('is_some', 'is_ok') else 0
                    discr[t[3][0]] = want
            if t[4] is not None:
                work.append(t[4])
            continue
        if t[0] == 'switch':
            continue
        work.extend(succs(t))
    return out


def method_name(c):
    n = c['n']
    if n.startswith('<'):
        return n.split('>::')[-1].split('::<')[0]
    # std::option::Option::<T>::ok_or_else::<..>
    depth = 0
    parts, cur = [], ''
    for ch in n:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            cur += ch
    parts = [q for q in cur.split('::') if q]
    return parts[-1]


def step(F, comp, l, s):
    """constant by which an assignment inside the component moves counter l"""
    if s[0] != '=' or s[1][1]:
        return None
    r = s[2]
    if r[0] == 'use' and r[1][0] in ('c', 'm') and len(r[1][1][1]) == 1:
        tl = r[1][1][0]
        for b in comp:
            for q in F.B[b]['s']:
                if q[0] == '=' and q[1][0] == tl and not q[1][1] and q[2][0] == 'cbin':
                    return addc(F, l, q[2])
        return None
    if r[0] in ('bin', 'cbin'):
        return addc(F, l, r)
    return None


def addc(F, l, r):
    op, a, c = r[1], r[2], r[3]
    if a[0] in ('c', 'm') and a[1][0] == l and not a[1][1] and c[0] == 'k' and 'a' in c[1]:
        v = int.from_bytes(bytes(c[1]['a']['b']), 'little')
        if v > 0:
            return v if op.startswith('Add') else -v if op.startswith('Sub') else None
    return None


def bound_tests(F, comp, l, d, assigned):
    """blocks whose switch leaves the component once the counter passes its bound"""
    out = set()
    for b in comp:
        t = F.B[b]['t']
        if t[0] != 'switch' or all(x in comp for x in succs(t)):
            continue
        if t[1][0] not in ('c', 'm'):
            continue
        bl = t[1][1][0]
        for q in F.B[b]['s']:
            if q[0] == '=' and q[1][0] == bl and not q[1][1] and q[2][0] == 'bin' and q[2][1] in ('Lt', 'Le', 'Gt', 'Ge'):
                L, R = derives(F, comp, q[2][2], l), derives(F, comp, q[2][3], l)
                if L == R:
                    continue
                op = q[2][1]
                # truth of the comparison means "not yet past the bound"
                cont_true = (op in ('Lt', 'Le')) == (L and d > 0 or R and d < 0)
                for v, y in list(t[2]) + [('other', t[3])]:
                    truth = None
                    if v == 'other':
                        truth = True if any(int(w) == 0 for w, _ in t[2]) else False
                    else:
                        truth = bool(int(v))
                    if y not in comp and truth != cont_true:
                        out.add(b)
    return out


def derives(F, comp, op, l, d=6):
    if op[0] not in ('c', 'm') or d == 0:
        return False
    x = op[1][0]
    if x == l:
        return True
    for b in comp:
        for q in F.B[b]['s']:
            if q[0] == '=' and q[1][0] == x and not q[1][1]:
                r = q[2]
                if r[0] == 'use' and derives(F, comp, r[1], l, d - 1):
                    return True
                if r[0] in ('bin', 'cbin') and r[1].startswith(('Add', 'Sub')) and derives(F, comp, r[2], l, d - 1):
                    return True
    return False


def reduce(F, comp, report, why):
    """recursive elimination; reports components with no progress"""
    rem_e, rem_b, w = progress_edges(F, comp)
    if not rem_e and not rem_b:
        report(comp)
        return
    why.extend(w)
    nodes = comp - rem_b
    succ = lambda v: [y for y in succs(F.B[v]['t']) if (v, y) not in rem_e]
    for c in sccs(nodes, succ):
        v = next(iter(c))
        if len(c) > 1 or v in succ(v):
            reduce2(F, c, succ, report, why)


def reduce2(F, comp, succ, report, why):
    # progress available for the smaller component (with the already removed edges gone)
    rem_e, rem_b, w = progress_edges(F, comp)
    nodes = comp - rem_b
    s2 = lambda v: [y for y in succ(v) if (v, y) not in rem_e]
    cs = [c for c in sccs(nodes, s2) if len(c) > 1 or next(iter(c)) in s2(next(iter(c)))]
    if len(cs) == 1 and cs[0] == comp:
        report(comp)
        return
    why.extend(w)
    for c in cs:
        reduce2(F, c, s2, report, why)


def fn_consts(P, x):
    """functions mentioned in the body of x (called or passed as values), closures it creates"""
    out = set()

    def ty(t):
        k = P.types[t]
        if k['k'] == 'fndef' and k.get('inst') is not None:
            out.add(k['inst'])
        if k['k'] == 'closure':
            for i in (k.get('insts') or {}).values():
                if i is not None:
                    out.add(i)

    def walk(o):
        if isinstance(o, dict):
            if 't' in o and isinstance(o['t'], int):
                ty(o['t'])
            return
        if isinstance(o, list):
            for y in o:
                walk(y)
    for b in x['body']['blocks']:
        walk(b['s']); walk(b['t'])
    for l, t in enumerate(x['body']['locals']):
        if P.types[t]['k'] in ('closure', 'fndef') and not (l == 1 and '{closure' in x['n'] and x['body']['argc']):
            ty(t)
    return out


def check(ctx):
    P = ctx.p
    nl = 0
    for x in P.insts:
        if not x['local'] or not x['body']:
            continue
        ctx.fnset.add(x['n'])
        F = Fn(P, x)
        reach = set(); w = [0]
        while w:
            v = w.pop()
            if v in reach:
                continue
            reach.add(v); w.extend(succs(F.B[v]['t']))
        for comp in sccs(reach, lambda v: succs(F.B[v]['t'])):
            v = next(iter(comp))
            if len(comp) == 1 and v not in succs(F.B[v]['t']):
                continue
            nl += 1
            bad, why = [], []
            reduce(F, comp, lambda c: bad.append(c), why)
            n = x['n'].replace('webrtc_sdp::', '')
            sp = F.B[min(bad[0])]['sp'] if bad else None
            ctx.check(not bad, 'loop@' + n, 'a loop in `%s` can iterate without consuming a finite resource (blocks %s)' % (
                n, sorted(bad[0])[:12] if bad else ''), sp)
            ctx.samples.append('%s: %s' % (n, '; '.join(why[:3])))
        # endless sources
        for bi, b in enumerate(F.B):
            c = F.callee(b['t'])
            if c is not None and not c['local']:
                n = c['n']
                tr = n.startswith('<') and ' as std::iter::' in n
                m = method_name(c)
                if tr and endless_name(n[1:].split(' as std::iter::')[0]) and m not in ('zip', 'take', 'into_iter', 'map', 'filter',
                                                                                     'enumerate', 'by_ref', 'size_hint', 'next', 'peekable'):
                    ctx.check(False, 'endless@%s@%s' % (x['n'], c['n'].split('<')[0]),
                              'endless iterator `%s` used in `%s`' % (c['n'], x['n']), b.get('sp'))
    ctx.floor(nl, 5, 'loops')
    # recursion
    g = {x['i']: [i for i in fn_consts(P, x)] for x in P.insts if x['body']}
    nodes = set(g)
    for c in sccs(nodes, lambda v: g.get(v, [])):
        v = next(iter(c))
        if (len(c) > 1 or v in g[v]):
            loc = sorted(P.insts[i]['n'] for i in c if P.insts[i]['local'])
            if loc:
                ctx.check(False, 'recursion@' + loc[0].replace('webrtc_sdp::', ''), 'recursive call cycle: %s' % ', '.join(loc[:6]),
                          P.insts[v]['body']['span'])
    ctx.obl += 1; ctx.disch += 1
    ctx.floor(len(g), 100, 'call_graph_nodes')
