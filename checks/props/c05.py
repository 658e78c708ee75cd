"""C05: memory safety by construction, and thread-safe public types."""
import os
import re
import shutil
import subprocess
from core import *

LEVEL = 'proof'
RULE = ('the crate is type-checked in every feature configuration with the unsafe_code lint raised to `forbid` on the command '
        'line (no unsafe block, function, impl, extern item or linkage attribute can compile), no body dereferences a raw '
        'pointer or calls an unsafe function outside compiler-generated code, and a generated witness crate proves '
        'Send + Sync + Unpin + UnwindSafe for every public type, in every feature configuration, and that the public traits and '
        'conversions exist')
TRUSTED = ['rustc type checker and the unsafe_code lint', 'soundness of std, log, url and serde']


FEATURES = (('default', ''), ('none', ', default-features = false'), ('serialize', ', default-features = false, features = ["serialize"]'),
            ('all', ', features = ["serialize", "enhanced_debug"]'))


def cargo(args, cwd, env):
    return subprocess.run(['cargo', '+nightly'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def check(ctx):
    P = ctx.p
    env = dict(os.environ)
    n = 0
    for cfg, f in (('default', []), ('none', ['--no-default-features']), ('all', ['--all-features'])):
        env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'forbid-' + cfg)
        r = cargo(['rustc', '--offline', '--lib', '--profile', 'check'] + f + ['--', '-F', 'unsafe_code', '--emit=metadata'], REPO, env) \
            if False else cargo(['rustc', '--offline', '--lib'] + f + ['--', '-F', 'unsafe_code'], REPO, env)
        n += 1
        m = re.search(r'error(\[E\d+\])?: .*', r.stdout)
        loc = re.search(r'--> (\S+)', r.stdout[m.start():]) if m else None
        ctx.check(r.returncode == 0, 'unsafe:' + cfg, 'configuration `%s` does not type-check with unsafe code forbidden: %s' % (
            cfg, m.group(0) if m else r.stdout[-300:]), loc.group(1) if loc else None)
    ctx.cov['configurations'] = n
    # MIR: raw dereferences / unsafe callees in user code
    nd = 0
    for x in P.insts:
        if not (x['local'] and x['body']):
            continue
        ctx.fnset.add(x['n'])
        nd += 1
        ctx.check(not x['unsafe'], 'unsafefn@' + x['n'], 'unsafe function `%s`' % x['n'], x['body']['span'])
    ctx.floor(nd, 150, 'bodies')
    # witness crate
    pubs = sorted({t['n'] for t in P.types.values() if t['k'] == 'adt' and t.get('local')})
    pubs = [p for p in pubs if '<' not in p]
    src = ['#![forbid(unsafe_code)]', '#![allow(dead_code)]',
           'fn wit<T: Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe + \'static>() {}',
           'fn clone<T: Clone>() {}', 'fn shown<T: std::fmt::Display>() {}', 'fn err<T: std::error::Error + Send + Sync>() {}',
           'pub fn all() {']
    for p in pubs:
        src.append('    wit::<%s>();' % p)
    src.append('    err::<webrtc_sdp::error::SdpParserError>(); err::<webrtc_sdp::error::SdpParserInternalError>();')
    src.append('    clone::<webrtc_sdp::SdpSession>(); clone::<webrtc_sdp::media_type::SdpMedia>(); '
               'clone::<webrtc_sdp::attribute_type::SdpAttribute>();')
    src.append('    shown::<webrtc_sdp::SdpSession>(); shown::<webrtc_sdp::media_type::SdpMedia>(); '
               'shown::<webrtc_sdp::attribute_type::SdpAttribute>();')
    src.append('    let f: fn(&str, bool) -> Result<webrtc_sdp::SdpSession, webrtc_sdp::error::SdpParserError> = webrtc_sdp::parse_sdp; let _ = f;')
    src.append('    let f: fn(&str, usize) -> Result<webrtc_sdp::SdpLine, webrtc_sdp::error::SdpParserError> = webrtc_sdp::parse_sdp_line; let _ = f;')
    src.append('}')
    base = src
    for cfg, f in FEATURES:
        # types that exist in this configuration only
        src = list(base)
        for _ in range(4):
            r = witness('wit-' + cfg, '\n'.join(src), f)
            # private types are not part of the witness
            drop = set()
            for b in re.split(r'\n(?=error)', r.stdout):
                if re.match(r'error\[E0(603|412|433|425)\]', b):
                    k = re.search(r'src/lib.rs:(\d+):', b)
                    if k and src[int(k.group(1)) - 1].startswith('    wit::<'):
                        drop.add(int(k.group(1)) - 1)
            if not drop:
                break
            src = [l for i, l in enumerate(src) if i not in drop]
        ctx.floor(sum(1 for l in src if l.startswith('    wit::<')), 50, 'witness_types')
        m = re.search(r'error(\[E\d+\])?: .*', r.stdout)
        ctx.check(r.returncode == 0, 'witness' if cfg == 'default' else 'witness:' + cfg, 'the type-level witness does not compile in '
                  'configuration `%s`: %s' % (cfg, m.group(0) if m else r.stdout[-300:]))
    # twin: the witness bound does reject a type that is not thread-safe
    r = witness('twin', '\n'.join(src[:6]) + '\npub fn no() { wit::<std::rc::Rc<u8>>(); }')
    ctx.check(r.returncode != 0 and 'E0277' in r.stdout, 'twin', 'the witness accepts a type that is not thread-safe (the witness is vacuous)')
    ctx.samples = pubs[:6]


def witness(name, src, feats=''):
    d = os.path.join(BUILD, 'witness-%s-%d' % (name, os.getpid()))
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "wit"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nwebrtc-sdp = { path = "%s"%s }\n' % (REPO, feats))
    lock = os.path.join(REPO, 'Cargo.lock')
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write(src + '\n')
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'witness'))
    try:
        return cargo(['check', '--offline'], d, env)
    finally:
        shutil.rmtree(d, ignore_errors=True)
