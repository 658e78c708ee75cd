"""C04: no ambient input or effect; results do not depend on hash order."""
import re
import logdep
from core import *
from props.c03 import Fn

LEVEL = 'proof'
RULE = ('effect analysis over the resolved call graph: no function of the crate calls, passes or stores a function of the '
        'ambient parts of std (env, fs, io, net sockets, os, process, thread, time, sync, alloc, panic, random state) or of '
        'a crate other than core/alloc/std/log facade/url/serde/idna-free parsing, iterates a hash collection, formats a '
        'pointer, turns a pointer into a number, or touches a mutable or lazily initialised static; no type of the crate '
        'has interior mutability; what runs or is stored under a branch on the logging configuration reaches nothing but '
        'diagnostics (post-dominators, liveness and taint)')
TRUSTED = ['rustc (callee resolution)', 'std functions outside the listed modules are deterministic',
           'the log facade only writes diagnostics; the url crate host parser is a pure function']

DENY = re.compile(r'\bstd::(env|fs|io|os|process|thread|time|sync|backtrace|alloc|panic|random|hash::random|task|future|ffi::os_str)::'
                  r'|\bcore::(sync|arch|panic::location|hint::black_box|ptr::(from_exposed|addr))'
                  r'|\bstd::net::(Tcp|Udp|ToSocketAddrs)|std::any::type_name|RandomState|DefaultHasher|LocalKey|LazyCell|OnceCell|'
                  r'\bstd::cell::|\bcore::cell::|\bstd::rc::')
HASHITER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain',
            'extract_if', 'fmt', 'difference', 'union', 'intersection', 'symmetric_difference', 'next', 'eq', 'clone_from'}
CRATES = {'core', 'alloc', 'std', 'log', 'url', 'webrtc_sdp', 'serde', 'serde_core'}
INTERIOR = re.compile(r'\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Atomic\w+|Rc|Weak)\b')
LOG_OK = re.compile(r'__private_api|max_level|::log::log$|Level|STATIC_MAX_LEVEL|PartialOrd|Log>::enabled|logger')


def hashy(n):
    return 'HashMap' in n or 'HashSet' in n or 'hash_map::' in n or 'hash_set::' in n or 'hash::map' in n


def check(ctx):
    P = ctx.p
    from props.c03 import fn_consts, method_name
    ncalls = 0
    for x in P.insts:
        if not (x['local'] and x['body']):
            continue
        ctx.fnset.add(x['n'])
        nm = x['n'].replace('webrtc_sdp::', '')
        for i in sorted(fn_consts(P, x)):
            c = P.insts[i]
            if c['local']:
                continue
            ncalls += 1
            n = c['n']
            head = re.sub(r'\{closure@[^}]*\}', '', n)
            m = method_name(c)
            bad = None
            if c['crate'] not in CRATES:
                bad = 'calls into crate `%s`' % c['crate']
            elif c['crate'] == 'log':
                if not LOG_OK.search(n):
                    bad = 'changes or reads the logging configuration'
            elif DENY.search(head.split(' as ')[0] if head.startswith('<') else head) or DENY.search(c['d']):
                bad = 'reaches ambient state'
            elif hashy(head.split(' as ')[0]) and m in HASHITER:
                bad = 'depends on hash iteration order'
            elif ' as std::fmt::Pointer>' in n or 'fmt::pointer' in n.lower() or 'new_pointer' in n:
                bad = 'formats an address'
            ctx.check(bad is None, 'effect@%s@%s' % (nm, re.sub(r'<.*', '', c['d'].lstrip('<'))), '`%s` %s: `%s`' % (nm, bad, n[:160]),
                      x['body']['span'])
        for b in x['body']['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'cast' and ('Expose' in str(s[2][1]) or 'PtrToInt' in str(s[2][1])):
                    ctx.check(False, 'addr@' + nm, '`%s` turns a pointer into a number' % nm, s[3] if len(s) > 3 else None)
                if s[0] == '=' and s[2][0] == 'tls':
                    ctx.check(False, 'tls@' + nm, '`%s` uses a thread local' % nm)
    ctx.floor(ncalls, 200, 'foreign_function_uses')
    # the configuration of the logging facade
    ps, nl = logdep.problems(P)
    for nm, t, sp in ps:
        ctx.check(False, 'log@' + nm, 'in `%s` a branch on the logging configuration %s' % (nm, t), sp)
    ctx.check(not ps, 'log', 'results depend on the logging configuration')
    ctx.cov['functions_with_log_branches'] = nl
    # statics reachable from constants
    ns = 0
    for a, v in P.allocs.items():
        if isinstance(v, dict) and 'static' in v:
            ns += 1
            s = v['static']
            # immutable statics are constants; mutable ones need unsafe code (C05) or a std type denied above
            if INTERIOR.search(str(s)):
                ctx.check(False, 'static@' + s, 'static `%s` is used' % s)
    # interior mutability in local types
    nt = 0
    for i, t in P.types.items():
        if t['k'] == 'adt' and t.get('local'):
            nt += 1
            for v in t['v']:
                for f in v['f']:
                    s = P.tname(f[1])
                    ctx.check(not INTERIOR.search(s), 'interior@%s.%s' % (short(t['n']), f[0]),
                              'field `%s` of `%s` has interior mutability or shared ownership: %s' % (f[0], t['n'], s))
    ctx.floor(nt, 40, 'types')
    ctx.samples = ['%d foreign functions used, %d statics mentioned' % (ncalls, ns)]
