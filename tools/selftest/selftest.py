"""engine self test: every function of the crate must evaluate to true on all paths"""
import os, sys, traceback, signal
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path[:0] = [V + '/engine', V + '/checks']
from core import *
from tmpl import TInterp, hole, Undet
P = Prog(os.environ.get('SELFTEST_DUMP', '/tmp/st/d.json'))
only = sys.argv[1:]
u32 = P.find_ty(lambda k: k['k'] == 'uint' and k['n'] == 'u32')
good = bad = 0
res = {}
class TO(Exception): pass
def al(*a): raise TO()
signal.signal(signal.SIGALRM, al)
for f in P.insts:
    n = f['n']
    if not (f['local'] and f['body'] and n.startswith('webrtc_sdp::t::') and f['body']['argc'] == 2 and n.count('::') == 2): continue
    k = n.split('::')[-1]
    if only and k not in only: continue
    it = TInterp(P, 96)
    tm = []
    if only and os.environ.get('T'):
        o = it.models.opaque_result
        def oo(F, bb, st, inst, *a): print('  opaque', inst['n'][:160]); return o(F, bb, st, inst, *a)
        it.models.opaque_result = oo
    signal.alarm(20)
    try:
        outs = it.root(f, [mk('box', hole('w')), mk('opq', 'n', ty=u32)], State())[0]
        vs = {repr(it.simp(s, r)) for s, r in outs}
        ok = bool(outs) and all(it.truth(s, it.simp(s, r)) == 1 for s, r in outs)
        res[k] = 'ok' if ok else 'vals %s unknown=%s' % (str(sorted(vs))[:160], list(it.opaque)[:6])
        if any(it.truth(s, it.simp(s, r)) == 0 for s, r in outs) and not it.opaque: res[k] = 'WRONG ' + res[k]
    except TO: res[k] = 'timeout'
    except Exception as e:
        if only: traceback.print_exc()
        res[k] = 'exc %s %s' % (type(e).__name__, str(e)[:150])
    signal.alarm(0)
    if res[k] != 'ok': print(k, res[k][:600 if only else 330])
print(sum(v == 'ok' for v in res.values()), 'of', len(res))

