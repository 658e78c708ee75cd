"""panic analysis self test: functions of panics::ok must be discharged, functions of panics::boom must not"""
import os, sys, signal
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path[:0] = [V + '/engine', V + '/checks']
from core import *
P = Prog(os.environ.get('SELFTEST_DUMP', '/tmp/st/d.json'))
only = sys.argv[1:]
class TO(Exception): pass
def al(*a): raise TO()
signal.signal(signal.SIGALRM, al)
good = n = 0
for f in P.insts:
    m = f['n'].split('::')
    if not (f['local'] and f['body'] and m[:2] == ['webrtc_sdp', 'panics'] and len(m) == 4 and m[2].rstrip('2') in ('ok', 'boom')): continue
    if only and m[3] not in only and '::'.join(m[2:]) not in only: continue
    n += 1
    signal.alarm(30)
    try:
        it = Interp(P)
        outs, ev = it.root(f, None, None)
        bad = [e for e in ev if e.kind == 'obl' and not e.data[1]]
        ok = (not bad) == m[2].startswith('ok')
        txt = '; '.join('%s %s' % (e.data[0], e.data[2]) for e in bad)
    except TO: ok, txt = False, 'timeout'
    except Exception as e:
        ok, txt = False, 'exc %r' % e
        if only: import traceback; traceback.print_exc()
    signal.alarm(0)
    good += ok
    if not ok or only: print('::'.join(m[2:]), 'OK' if ok else 'WRONG', txt[:400], sorted(it.unknown)[:6])
print(good, 'of', n)
