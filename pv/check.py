"""Common driver of the checks: obligations, known findings, evidence, outcome."""
import json, os, re, sys, time
from . import build, ir
from .build import Broken, VERIF, REPO

EVID = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(VERIF, 'replay')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS')


class Check(object):
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.obs = []          # (key, ok, where, msg)
        self.keys = {}
        self.counts = {}
        self.explanation = ''
        self.assumptions = []
        self.level = 'other'
        self.trusted = []
        self.extra = {}

    def ob(self, ok, key, where, msg=''):
        """one obligation. key: stable identity (no line numbers); where: file:line (function); msg: what fails"""
        n = self.keys.get(key, 0)
        self.keys[key] = n + 1
        if n:
            key = '%s #%d' % (key, n + 1)
        self.obs.append((key, bool(ok), where, msg))
        return ok

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def need(self, have, least, what):
        """confirmed number of rule instances: fewer means the analysis lost its anchors"""
        self.counts[what] = have
        if have < least:
            raise Broken('%s: only %d %s found, at least %d expected' % (self.pid, have, what, least))


def known_findings(pid):
    r = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'^finding: property=(\S+) key=\[(.*?)\] (.*)$', line.rstrip('\n'))
                if m and m.group(1) == pid:
                    r.append((m.group(2), m.group(3)))
    return r


def main(pid, run):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = Check(pid, tier)
    try:
        run(ck)
        if not ck.obs:
            raise Broken(pid + ': no obligation generated')
    except Broken as e:
        print('ANALYSIS-BROKEN %s: %s' % (pid, e))
        return 3
    known = known_findings(pid)
    bad = [o for o in ck.obs if not o[1]]
    new = []
    hit = set()
    for o in bad:
        k = [x for x in known if x[0] == o[0]]
        if k:
            if o[0] not in hit:
                hit.add(o[0])
                print('KNOWN-FINDING: property=%s %s (%s)' % (pid, k[0][1], o[2]))
        else:
            new.append(o)
    cov = {
        'obligations': len(ck.obs),
        'discharged': sum(1 for o in ck.obs if o[1]),
        'known_findings': len(hit),
        'explanation': ck.explanation,
        'instances': ck.counts,
        'samples': [{'obligation': o[0], 'where': o[2], 'holds': o[1]} for o in ck.obs[:: max(1, len(ck.obs) // 12)][:12]],
    }
    if ck.level == 'proof':
        cov['checker_cmd'] = 'python3 checks/run.py ' + pid
        cov['trusted_base'] = ck.trusted
    cov.update(ck.extra)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': ck.level, 'coverage': cov,
          'assumptions': ck.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)' %
          (pid, len(ck.obs), cov['discharged'], len(hit), len(new), time.time() - t0))
    if new:
        os.makedirs(REPLAY, exist_ok=True)
        rp = os.path.join(REPLAY, pid + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s: %d violated obligations on the source in %s\n' % (pid, len(new), REPO))
            f.write('re-run: python3 %s/checks/run.py %s\n\n' % (VERIF, pid))
            for o in new:
                f.write('%s\n  at %s\n  %s\n' % (o[0], o[2], o[3]))
        for o in new[:20]:
            print('  %s\n    at %s\n    %s' % (o[0], o[2], o[3]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def pmap(fnc, items, procs=8):
    """forked parallel map; fnc must be a module-level function of picklable results"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    if len(items) <= 1:
        return [fnc(x) for x in items]
    with ctx.Pool(min(procs, len(items))) as p:
        return p.map(fnc, items, 1)
