"""Shared machinery of the checks: dumping /repo, running the abstract interpreter, reporting."""
import hashlib
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
from prog import Prog, Cfg, succs, short            # noqa
from terms import *                                 # noqa
import interp as _interp                            # noqa
from interp import Interp, EngineError              # noqa

REPO = os.environ.get('REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, '.build'))


class Unbuildable(Exception):
    pass


class Summary:
    def __init__(self, inst, outs, events, interp):
        self.inst = inst
        self.outs = outs
        self.events = events
        self.it = interp


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.t0 = time.time()
        self.viol = []
        self.known = []
        self.fixed = []
        self.cov = {}
        self.samples = []
        self.obl = 0
        self.disch = 0
        self.progs = {}
        self.sums = {}
        self.rules = []
        self.fnset = set()
        self.load_known()

    # ------------------------------------------------------------ program
    def dump_path(self, config='default'):
        os.makedirs(BUILD, exist_ok=True)
        out = os.path.join(BUILD, 'dump-%s-%d.json' % (config, os.getpid()))
        env = dict(os.environ, REPO=REPO, VERIF_BUILD=BUILD)
        r = subprocess.run([os.path.join(V, 'dump.sh'), out, config], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Unbuildable('%s (config %s): %s' % (r.returncode, config, r.stdout[-1500:]))
        return out

    def prog(self, config='default'):
        if config not in self.progs:
            cached = os.environ.get('VERIF_DUMP_' + config)
            if cached:
                self.progs[config] = Prog(cached)
            else:
                p = self.dump_path(config)
                try:
                    self.progs[config] = Prog(p)
                finally:
                    os.unlink(p)
        return self.progs[config]

    @property
    def p(self):
        return self.prog('default')

    # ------------------------------------------------------------ summaries
    def cut_fn(self, inst):
        """function boundary: `fn(&str) -> Result<struct | SdpType | SdpAttribute, _>` are analysed
        as roots of their own, callers see an opaque result"""
        b = inst['body']
        if not b or b['argc'] != 1 or '{closure' in inst['n'] or inst['n'].endswith('::from_str') or not inst['local']:
            return False
        P = self.p
        if not P.tname(b['locals'][0]).startswith('std::result::Result<') or P.tname(b['locals'][1]) != '&str':
            return False
        ok = P.types[b['locals'][0]]['v'][0]['f'][0][1]
        k = P.types[ok]
        return k['k'] == 'adt' and bool(k.get('local')) and \
            (k['ak'] == 'Struct' or short(k['n']) in ('SdpType', 'SdpAttribute'))

    def run(self, inst, cut=True, args=None, key=None, setup=None):
        k = (inst['n'], inst['i'], cut if not callable(cut) else id(cut), key)
        if k in self.sums:
            return self.sums[k]
        it = Interp(self.p, cut=(cut if callable(cut) else self.cut_fn if cut else None))
        st = None
        if setup:
            args, st = setup(it)
        outs, ev = it.root(inst, args, st)
        s = Summary(inst, outs, ev, it)
        self.sums[k] = s
        self.fnset |= {self.p.insts[i]['n'] for i, _ in it.blocks_seen}
        return s

    def fn(self, name, need=True):
        """instance by exact name"""
        xs = [x for x in self.p.by_name.get(name, []) if x['body']]
        if not xs:
            if need:
                self.fail('anchor:' + name, 'anchor `%s` not found in the analysed crate' % name)
            return None
        return xs[0]

    def find(self, pred, what, need=1):
        xs = [x for x in self.p.insts if x['local'] and x['body'] and pred(x)]
        if len(xs) < need:
            self.fail('anchor:' + what, 'anchor `%s`: %d found, %d expected' % (what, len(xs), need))
        return xs

    def impl(self, trait, ty, method, need=True):
        """trait-method instance `<ty as trait>::method`"""
        for x in self.p.insts:
            n = x['n']
            if x['body'] and n.startswith('<') and n.endswith('>::' + method) and ' as ' in n:
                a, b = n[1:n.rindex('>::')].split(' as ', 1)
                if short(a) == ty and (b.split('<')[0].split('::')[-1] == trait) and '::{' not in n:
                    return x
        if need:
            self.fail('anchor:%s for %s' % (trait, ty), 'no `%s::%s` for `%s` in the analysed crate' % (trait, method, ty))
        return None

    def adt_ty(self, name, local=True):
        for i, t in self.p.types.items():
            if t['k'] == 'adt' and short(t['n']) == name and (not local or t.get('local')):
                return i
        self.fail('anchor:type ' + name, 'type `%s` not found' % name)
        return None

    # ------------------------------------------------------------ verdicts
    def load_known(self):
        f = os.path.join(V, 'known-findings.txt')
        if os.path.exists(f):
            for l in open(f):
                l = l.strip()
                if l.startswith('finding: property=%s ' % self.prop):
                    r = l.split(' ', 2)[2]
                    key, _, text = r.partition(' | ')
                    self.known.append([key.strip(), text.strip(), False])

    def fail(self, key, text, span=None):
        """a violated obligation; key identifies the construct without line numbers"""
        for k in self.known:
            if k[0] == key:
                k[2] = True
                return
        if any(v[0] == key for v in self.viol):
            return
        self.viol.append((key, text, span))

    def check(self, ok, key, text, span=None):
        self.obl += 1
        if ok:
            self.disch += 1
        else:
            self.fail(key, text, span)
        return ok

    def floor(self, n, least, what):
        self.cov[what] = n
        if n < least:
            self.fail('floor:' + what, 'only %d %s analysed, at least %d expected' % (n, what, least))

    def finish(self, level, rule, trusted, explanation=None):
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov.update(obligations=self.obl, discharged=self.disch, rule=rule, checker_cmd='python3 checks/run.py ' + self.prop,
                   trusted_base=trusted, functions_analysed=len(self.fnset), samples=self.samples[:12],
                   explanation=explanation or rule)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
                  coverage=cov, wall_s=round(wall, 2), violations=len(self.viol),
                  assumptions=trusted)
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        for k in self.known:
            if k[2]:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k[1]))
        rp = os.path.join(V, 'evidence', self.prop + '.violations.txt')
        if self.viol:
            with open(rp, 'w') as f:
                for k, t, s in self.viol:
                    f.write('%s\t%s\t%s\n' % (k, s or '', t))
            for k, t, s in self.viol[:25]:
                print('  %s: %s%s' % (k, t[:600], ' [%s]' % s if s else ''))
            ev['violation_list'] = [list(v) for v in self.viol[:50]]
        elif os.path.exists(rp):
            os.unlink(rp)
        with open(os.path.join(V, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if self.viol:
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('OK property=%s obligations=%d discharged=%d functions=%d wall=%.1fs' % (
            self.prop, self.obl, self.disch, len(self.fnset), wall))
        return 0


def pname(P, inst):
    """short printable name"""
    return inst['n'].replace('webrtc_sdp::', '')
