"""C10: attributes only at their allowed level."""
from api import *
from props.c08 import entries

LEVEL = 'other'
RULE = ('for each of the attribute kinds: a description template with that attribute at session level, and in the first or second '
        'media section, is accepted on every path exactly when the level table allows it (dtls-message is dropped in a media '
        'section); SdpSession::add_attribute, SdpMedia::add_attribute and set_attribute, analysed on a symbolic value of the '
        'kind, succeed exactly then and otherwise leave the receiver as it was; the level predicates return the table')
TRUSTED = ['rustc MIR', 'std models in engine/', 'the level table, transcribed from the RFCs the crate names']


def check(ctx):
    A = Api(ctx)
    P = ctx.p
    docs = []
    MUX = ('a', 'a=rtcp-mux', 'Attribute', 'RtcpMux', '', None, 0, 1)
    for e in entries(P):
        if e[3] == 'Rid':
            e = e[:4] + ('{id} {direction=!send:Send}',) + e[5:] + (('', 'send', []),)
        if e[3] == 'Simulcast':
            continue
        more = [MUX] if e[3] == 'RtcpMuxOnly' else []
        docs += [['v', 'o', 's', 't', 'c', e], ['v', 'o', 's', e, 'a', 't', 'c', 'm', 'am', 'm'],
                 ['v', 'o', 's', 'b', 't', 'c', 'a', e, 'm'],
                 ['v', 'o', 's', 't', 'c', 'm', e] + more, ['v', 'o', 's', 't', 'm', 'c', e] + more + ['ap'],
                 ['v', 'o', 's', 't', 'c', 'a', 'm', 'am', 'ar', 'mv', 'ap', e] + more + ['a', 'm', 'am']]
    sim = attr('simulcast:send 1', 'Simulcast', 0, 1)
    sim = sim + ({'send': ['1'], 'recv': []},)
    docs += [['v', 'o', 's', 't', 'c', sim], ['v', 'o', 's', 't', 'c', 'm', rid('1', 'send'), sim],
             ['v', 'o', 's', 't', 'c', rid('1', 'send'), 'm', sim]]
    run_docs(ctx, A, [Doc(P, d) for d in docs], {'outcome'})
    # the same through the functions
    ms = A.guard('media', lambda: A.media(['m', 'am', 'b', 'ap', 'ar']))
    ss = A.guard('session', lambda: A.session(['v', 'o', 's', 't', 'a', 'ar', 'm', 'c', 'am']))
    fs = {k: A.method(*k) for k in (('SdpSession', 'add_attribute'), ('SdpMedia', 'add_attribute'), ('SdpMedia', 'set_attribute'))}
    preds = {k: A.method('SdpAttribute', k, need=False) for k in ('allowed_at_session_level', 'allowed_at_media_level')}
    for v, case in attrs(P):
        s, m = table.LEVELS[v]
        got = A.guard(v, lambda: A.value(case))
        if got is None or ms is None or ss is None:
            continue
        st0, x = got
        for (ty, name), f in fs.items():
            if f is None:
                continue

            def run():
                st, recv, _ = ss if ty == 'SdpSession' else ms
                st = st.copy()
                st.facts.update(st0.facts)
                it = TInterp(P, 64)
                parts = A.sparts if ty == 'SdpSession' else A.mparts
                want = parts(it, st, recv)
                ok = bool(s) if ty == 'SdpSession' else m == 1
                if ok:
                    old = want['attribute'].a
                    if name == 'set_attribute':
                        old = [y for y in old if it.vname(y) != v]
                    want['attribute'] = mk('arr', *old, x)
                A.expect('%s::%s:%s' % (ty, name, v), f, A.call(f, st, [x], recv), ok, want, parts)
            A.guard('%s::%s:%s' % (ty, name, v), run)
        for name, f in preds.items():
            if f is not None:
                w = bool(s) if 'session' in name else m == 1
                A.guard(name, lambda: A.expect('%s:%s' % (name, v), f, A.call(f, st0, [], x, mut=False), None, None, None, ret=I(int(w))))
    ctx.cov['api_obligations'] = A.n
    ctx.cov['api_undetermined'] = A.und
    ctx.fnset |= A.fns
    finish_lines(ctx, A, 100)
    ctx.floor(A.n, 200, 'level obligations on the builder functions')
