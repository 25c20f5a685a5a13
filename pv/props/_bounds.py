"""Shared runner of the memory-bounds properties: every access of a group of functions must be proven in range."""
import os
from .. import ir, bounds, build
from ..build import Broken
from ..check import pmap

_state = {}


def _one(m):
    p = _state['prog']
    f = p.fns[m]
    h, e = bounds.run(p, f)
    r = []
    for o in h.obs:
        r.append((o.kind, o.ok, o.ins.loc, o.rw, str(o.base[0]), o.why))
    return m, r, e.passes


def keepset():
    with open(os.path.join(build.VERIF, 'spec', 'keep_mod.txt')) as f:
        return set(f.read().split())


def targets(prog, sel):
    keep = keepset()
    return [f for f in prog.repo_fns() if f.mangled in keep and sel(f)]


NAMES = {'str': 'string bytes', 'sec': 'section bytes', 'alloca': 'local object', 'heap': 'allocated bytes', 'container': 'container element'}


def run(ck, sel, least_fns, least_obs, anchors, kinds=('access', 'cstr', 'index')):
    prog = ir.load('mod')
    fs = targets(prog, sel)
    have = set(f.short.split('<')[0] for f in fs)
    for a in anchors:
        if a not in have:
            raise Broken('%s: function %s not found' % (ck.pid, a))
    _state['prog'] = prog
    used = 0
    nobs = 0
    res = pmap(_one, [f.mangled for f in fs])
    for m, obs, passes in sorted(res, key=lambda x: prog.fns[x[0]].dem):
        f = prog.fns[m]
        obs = [o for o in obs if o[0] in kinds]
        if obs:
            used += 1
        for kind, ok, loc, rw, base, why in obs:
            nobs += 1
            ck.ob(ok, '%s(%s): %s of %s' % (f.short, ', '.join(short(x) for x in f.params), rw, NAMES.get(base, base)), '%s (%s)' % (loc, f.short),
                  why or 'in range')
    ck.count('functions analysed', len(fs))
    ck.need(used, least_fns, 'functions with memory obligations')
    ck.need(nobs, least_obs, 'memory obligations')
    ck.level = 'proof'
    ck.trusted = ['clang 18 front end (-O1 without optimisation passes)', 'pv/absint.py, pv/lin.py: abstract interpretation with exact linear arithmetic',
                  'pv/models.py: contracts of std::string, std::vector and of the section access primitives']


def short(p):
    return p.replace('pe_bliss::', '').replace('std::', '').replace('pe_win::', '')[:40]
