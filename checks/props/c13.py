"""C13: a fingerprint has exactly the bytes of its hash algorithm."""
from lines import *
import table

LEVEL = 'other'
RULE = ('for every hash algorithm: a line with exactly its number of symbolic octets is accepted on every path with that '
        'algorithm and every byte in its place; with one octet fewer or more, or the number of any other algorithm, or octets '
        'not made of two hexadecimal digits, it is refused on every path; the checked constructor, for a byte vector of symbolic '
        'length, succeeds only on paths that imply the right length and keeps algorithm and bytes; a function from an algorithm and a text to '
        'bytes, given texts of octets of every such number, succeeds exactly for the right number with the bytes written')
TRUSTED = ['rustc MIR', 'std models in engine/', 'the digest lengths of RFC 8122 / FIPS 180']


def check(ctx):
    P = ctx.p
    L = Lines(ctx)
    acc, ref = [], []

    def case(text, what):
        c = Case(P, 'a=fingerprint:', 'Attribute', 'Fingerprint', text, None)
        c.what = what
        return c

    def octs(n):
        return ':'.join('{fingerprint[%d]:x8}' % i for i in range(n))
    for n, v, k in table.HASHES:
        acc.append(case('{hash_algorithm=%s:%s} %s' % (n, v, octs(k)), n))
        for lit in ('00', 'FF', '7f', 'aB'):
            t = case('{hash_algorithm=%s:%s} %s' % (n, v, ':'.join([lit] * k)), n)
            t.exp.update({'fingerprint[%d]' % i: I(int(lit, 16)) for i in range(k)})
            acc.append(t)
        for m in sorted({k - 1, k + 1, 1, 2 * k} | {x for _, _, x in table.HASHES}):
            if m != k:
                ref.append(case('%s %s' % (n, octs(m)), n))
            if m != k:
                # the same number of octets, all alike or counting
                for lit in ('00', 'FF', 'ff', '01', '0a'):
                    ref.append(case('%s %s' % (n, ':'.join([lit] * m)), n))
                ref.append(case('%s %s' % (n, ':'.join('%02x' % (i & 255) for i in range(m))), n))
                ref.append(case('%s 00:%s' % (n, octs(m - 1)) if m > 1 else '%s ' % n, n))
        ref.append(case('%s %s:' % (n, octs(k)), n))
        ref.append(case('%s :%s' % (n, octs(k - 1)), n))
        ref.append(case('%s %s::{x:x8}' % (n, octs(k - 2)), n))
        for bad in ('0', 'ABC', '000', 'G0', '0x', '-1', '', '256', ' 1', 'zz'):
            ref.append(case('%s %s' % (n, octs(k - 1) + ':' + bad), n))
            if ' ' not in bad:
                ref.append(case('%s %s' % (n, bad + ':' + octs(k - 1)), n))
        ref.append(case('%s %s' % (n, 'AB' * k), n))
        ref.append(case('%s' % n, n))
        ref.append(case('%s %s %s' % (n, octs(k), '{zz}'), n))
    for w in ('{zz}', 'sha-0', 'sha-2', 'md5', 'md2', 'sha1', 'sha256', 'sha-', 'sha-2560'):
        for _, _, k in table.HASHES:
            ref.append(case('%s %s' % (w, octs(k)), 'algorithm'))
    batch(ctx, L, acc, 'accept', lambda L, c: L.accept(c))
    batch(ctx, L, ref, 'refuse', lambda L, c: L.refuse(c))
    constructor(ctx, L)
    octets(ctx, L)
    finish_lines(ctx, L, 60)


def constructor(ctx, L):
    P = ctx.p
    hty = ctx.adt_ty('SdpAttributeFingerprintHashType')
    fty = ctx.adt_ty('SdpAttributeFingerprint')
    if hty is None or fty is None:
        return
    H = P.types[hty]
    want = {v: k for _, v, k in table.HASHES}
    n = 0
    for f in P.insts:
        if not (f['local'] and f['body'] and '{closure' not in f['n']):
            continue
        b = f['body']
        ret = P.types[b['locals'][0]]
        # functions that build a fingerprint out of an algorithm and bytes
        res = ret['k'] == 'adt' and (b['locals'][0] == fty or short(ret['n']) == 'Result' and ret['args'][:1] == [fty])
        if not res:
            continue
        tys = b['locals'][1:1 + b['argc']]
        flat = []
        for t in tys:
            flat += [t] if P.types[t]['k'] != 'tuple' else list(P.types[t]['ts'])
        vec = [t for t in flat if P.types[t]['k'] == 'adt' and short(P.types[t]['n']) == 'Vec' or P.types[t]['k'] in ('ref', 'slice')]
        if hty not in flat or len(vec) != 1 or len(flat) != 2 or f['n'].endswith('clone'):
            continue
        for vi, v in enumerate(H['v']):
            it = TInterp(P, 64)
            st = State()
            bytes_ = mk('opq', 'bytes', ty=vec[0])
            flatv = [mk('adt', hty, vi) if t == hty else bytes_ for t in flat]
            args = [mk('tup', *flatv)] if len(tys) == 1 else flatv
            try:
                outs = it.root(f, args, st)[0]
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    print('undet', f['n'], repr(e))
                continue
            for st, r in outs:
                if it.vname(r) not in ('Ok', 'Err'):
                    continue
                lo, hi = it.iv(st, it.len_(bytes_))
                n += 1
                if it.vname(r) == 'Err':
                    ctx.check(not (lo == hi == want[v['n']]), 'constructor:%s refuses' % v['n'],
                              'the checked constructor refuses %s bytes for %s' % (lo, v['n']), f['span'])
                    continue
                ctx.check(lo == hi == want[v['n']], 'constructor:%s length' % v['n'],
                          'the checked constructor accepts %s..%s bytes for %s, %d expected' % (lo, hi, v['n'], want[v['n']]),
                          f['span'])
                x = it.simp(st, r.a[2])
                a = it.simp(st, L.field(x, 'hash_algorithm'))
                ctx.check(a.op != 'adt' or a.a[1] == vi, 'constructor:%s algorithm' % v['n'],
                          'the checked constructor stores %s for %s' % (it.vname(a), v['n']), f['span'])
                y = it.simp(st, L.field(x, 'fingerprint'))
                ctx.check(y is bytes_ or y.op not in ('opq', 'arr') or y.op == 'opq' and y is bytes_, 'constructor:%s bytes' % v['n'],
                          'the checked constructor stores %s instead of the given bytes' % say(P, y), f['span'])
    ctx.cov['constructor_paths'] = n


def octets(ctx, L):
    """functions from a hash algorithm and a text to its bytes"""
    P = ctx.p
    hty = ctx.adt_ty('SdpAttributeFingerprintHashType')
    if hty is None:
        return
    H = P.types[hty]

    def peel(t):
        while P.types[t]['k'] == 'ref':
            t = P.types[t]['e']
        return t
    fs = []
    for f in P.insts:
        if not (f['local'] and f['body'] and '{closure' not in f['n']):
            continue
        b = f['body']
        ret = P.types[b['locals'][0]]
        tys = [P.types[peel(t)] for t in b['locals'][1:1 + b['argc']]]
        if ret['k'] != 'adt' or short(ret['n']) != 'Result' or not isinstance(ret['args'][0], int):
            continue
        v = P.types[ret['args'][0]]
        if v['k'] != 'adt' or short(v['n']) != 'Vec' or P.types[v['args'][0]]['n'] != 'u8':
            continue
        if len(tys) == 2 and tys[0] is P.types[hty] and (tys[1]['k'] == 'str' or tys[1].get('n', '').endswith('String')):
            fs.append(f)
    cases = []

    def case(f, n, v, text, k):
        c = Case(P, '', None, None, text, None)
        c.f, c.alg, c.count, c.what = f, v, k, 'octets:' + n
        return c

    def octs(n):
        return ':'.join('{[%d]:x8}' % i for i in range(n))
    for f in fs:
        for n, v, k in table.HASHES:
            for m in sorted({k - 1, k, k + 1, 1, 2 * k} | {x for _, _, x in table.HASHES}):
                cases.append(case(f, n, v, octs(m), m == k))
                for lit in ('00', 'FF', '01', '7f'):
                    c = case(f, n, v, ':'.join([lit] * m), m == k)
                    c.exp.update({'[%d]' % i: I(int(lit, 16)) for i in range(m)})
                    cases.append(c)
            for bad in ('0', 'ABC', 'G0', '-1', '', '256', ' 1', 'zz'):
                cases.append(case(f, n, v, octs(k - 1) + ':' + bad, False))
                cases.append(case(f, n, v, bad + ':' + octs(k - 1), False))
            cases += [case(f, n, v, 'AB' * k, False), case(f, n, v, '{zz}', False), case(f, n, v, '', False)]

    def judge(L, c):
        vi = next((i for i, v in enumerate(H['v']) if v['n'] == c.alg), None)
        it, st = TInterp(P, 160), State()
        for v, lo, hi in c.facts:
            it.meet_iv(st, v, lo, hi)
        alg = mk('adt', hty, vi)
        ts = c.f['body']['locals'][1:3]
        st.mem[('h', 'alg')] = alg
        a = [mk('ref', ('h', 'alg'), ()) if P.types[ts[0]]['k'] == 'ref' else alg, box(c.line) if P.types[ts[1]]['k'] == 'ref' else c.line]
        try:
            outs = it.root(c.f, a, st)[0]
        except Exception as e:
            return 'undet', repr(e), None
        res = []
        for st, r in outs:
            k = it.vname(r)
            if k == 'Err' or not c.count:
                ok = (k == 'Err') != c.count if k in ('Ok', 'Err') else None
                res.append((ok, 'is refused' if k == 'Err' else 'is accepted for ' + c.alg, st))
                continue
            x = it.simp(st, r.a[2])
            ok, why = L.judge_value(c, it, st, x)
            if ok and (x.op != 'arr' or len(x.a) != len(c.exp)):
                ok, why = (False if x.op == 'arr' else None), 'gives %s' % say(P, x)
            res.append((ok, why, st))
        bad = [x for x in res if x[0] is False and precise(x[2], c)]
        if bad or res and all(x[0] is False for x in res):
            j = (bad or res)[0]
            return 'bad', 'through %s %s' % (c.f['n'], j[1]) + cond(P, it, c, j[2]), (it, outs)
        if res and all(x[0] is True for x in res):
            return 'ok', '', (it, outs)
        return 'undet', '; '.join(sorted({str(x[1]) for x in res})), (it, outs)
    batch(ctx, L, cases, 'octets', judge, False)
    ctx.cov['octet_parsers'] = len(fs)
