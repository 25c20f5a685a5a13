"""P09: operations that depend on the image kind use the variant of the image's own kind, with the same arguments."""
from .. import ir, heap
from ..heap import C
from ..build import Broken
from .p12 import where, last


def width(f):
    """32 or 64 for a function made for one image kind, None otherwise"""
    a, b = 'image_nt_headers32' in f.dem, 'image_nt_headers64' in f.dem
    return None if a == b else 32 if a else 64


def callee(p, i):
    c = i.callee
    return p.fns.get(c) if c else None


def kinds(p):
    """the numbers of the two kinds, as reported by the header classes"""
    r = {}
    for f in p.repo_fns():
        if last(f.name) == 'get_pe_type' and width(f) and f.has_body:
            P = heap.Paths(p, f)
            v = set(x for x, s in P.rets)
            if len(v) == 1:
                r[width(f)] = (v.pop(), f)
    return r


def flat(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            for y in flat(x):
                yield y


def istype(t):
    """t is the kind reported for an image: ('call', ...get_pe_type, ...)"""
    while t[0] == 'cast':
        t = t[4]
    return t if t[0] == 'call' and t[1].split('::')[-1] == 'get_pe_type' else None


def known(s, k, who):
    """the kind established by the conditions of a path"""
    out = None
    for c in s.conds:
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3][0] == 'c':
            t = istype(c[2])
            if t is None or who is not None and not any(x == who for x in flat(t[2])):
                continue
            w = [n for n in k if k[n] == c[3][1]]
            if len(w) == 1:
                out = w[0] if c[1] == 'eq' else 96 - w[0]
        elif c[0] == 'op' and c[1] == 'xor' and c[4] == C(1, 1) and istype(c[3]):
            out = [n for n in k if k[n] == 0][0]
        elif istype(c) is not None:
            out = [n for n in k if k[n] == 1][0]
    return out


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18', 'tools/irx', 'pv/heap.py']
    ck.explanation = ('For every function that hands over to a variant made for one image kind, on every path: the kind of the image has been tested, the variant is the one of that '
                      'kind, each argument is passed through unchanged, and the result is returned.')
    p = ir.load('mod')
    k = kinds(p)
    for w in (32, 64):
        ck.ob(w in k and k[w][0][0] == 'c', 'headers of the %d-bit kind report one kind' % w, where(k[w][1]) if w in k else '', 'the kind reported is not a constant')
    if len(k) < 2 or any(v[0][0] != 'c' for v in k.values()):
        return
    num = dict((w, k[w][0][1]) for w in k)
    ck.ob(num[32] != num[64], 'the two kinds differ', where(k[32][1]), 'both header classes report the same kind')
    n = 0
    for f in p.repo_fns():
        if not f.has_body or width(f):
            continue
        cs = [(i, callee(p, i)) for i in f.calls()]
        cs = [(i, g) for i, g in cs if g is not None and width(g) and g.has_body]
        if not cs:
            continue
        names = sorted(set(last(g.name) for i, g in cs))
        if any('pe_properties_generic' in x.name for i, x in cs):
            factory(ck, p, f, num)
            n += 1
            continue
        dispatch(ck, p, f, num, names)
        n += 1
    bytype(ck, p, num)
    if n < 5:
        raise Broken('only %d dispatching functions found' % n)
    ck.count('functions', n)


def strip(t):
    return t


def dispatch(ck, p, f, num, names):
    own = [('arg', j) for j in range(len(f.args))]
    P = heap.Paths(p, f, watch=tuple(names))
    calls = [x for x in P.seen if x[1] is not None and width(x[1])]
    ck.ob(P.complete and bool(calls), f.short + ': analysable', where(f), 'the function could not be analysed')
    sret = f.args and f.args[0].get('sret') if f.args and isinstance(f.args[0], dict) else None
    bad = None
    for i, g, a, s in calls:
        w = known(s, num, None)
        if w != width(g):
            bad = (i, 'the %d-bit variant is used for an image %s' % (width(g), 'whose kind was not tested' if w is None else 'of the %d-bit kind' % w))
    ck.ob(bad is None, f.short + ': the variant of the own kind', bad[0].loc if bad else where(f), bad[1] if bad else '')
    bad = None
    for i, g, a, s in calls:
        want = [P.arg(j) for j in range(len(f.args))]
        got = list(a)
        if len(got) != len(want):
            bad = (i, 'a different number of arguments is passed on')
            continue
        for j, (x, y) in enumerate(zip(got, want)):
            if x != y and P.aspt(x) != P.aspt(y):
                bad = (i, 'argument %d is not passed through unchanged' % j)
    ck.ob(bad is None, f.short + ': same arguments', bad[0].loc if bad else where(f), bad[1] if bad else '')
    per = {}
    ok = True
    for v, s in P.rets:
        w = known(s, num, None)
        per.setdefault(w, []).append(v)
        if v is not None and v[0] == 'c':
            ok = False
    ck.ob(ok and set(per) == {32, 64}, f.short + ': both kinds are handled', where(f), 'a path returns without handing over')
    idx = {}
    for i, g, a, s in calls:
        idx.setdefault(width(g), set()).add(i.loc)
    ck.ob(set(idx) == {32, 64}, f.short + ': has both variants', where(f), 'one of the kinds has no variant')


def factory(ck, p, f, num):
    """images are made with the header class of their kind"""
    tgt = [last(g.name) for g in (callee(p, i) for i in f.calls()) if g is not None]
    P = heap.Paths(p, f, watch=tuple(sorted(set(tgt))))
    bad, seen = None, set()
    for i, g, a, s in P.seen:
        if g is None or not width(g) or last(g.name).startswith('~'):
            continue
        w = known(s, num, None)
        seen.add(width(g))
        if w != width(g):
            bad = (i, 'headers of the %d-bit kind are made for an image %s' % (width(g), 'whose kind was not tested' if w is None else 'of the %d-bit kind' % w))
    ck.ob(bad is None and seen == {32, 64}, f.short + ': the header class of the own kind', bad[0].loc if bad else where(f), bad[1] if bad else 'a header class is missing')
    bad = None
    n = 0
    for i, g, a, s in P.seen:
        if g is None or last(g.name) != 'pe_base' or len(a) < 5:
            continue
        n += 1
        if a[0] != P.arg(0) or a[1] != P.arg(1) or [a[3], a[4]] != [P.arg(2), P.arg(3)]:
            bad = i
    ck.ob(n > 0 and bad is None, f.short + ': same arguments', bad.loc if bad else where(f), 'stream or options are not passed through unchanged')


def bytype(ck, p, num):
    """the kind of a stored image follows the magic number of its header"""
    fs = [f for f in p.repo_fns() if last(f.name) == 'get_pe_type' and 'istream' in f.dem and f.has_body]
    for f in fs:
        P = heap.Paths(p, f)
        bad = None
        for v, s in P.rets:
            m = set()
            for c in s.conds:
                if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3][0] == 'c' and c[3][1] in (0x10b, 0x20b):
                    m.add((c[1], c[3][1]))
            if any(('eq', x) in m and ('ne', x) in m for x in (0x10b, 0x20b)) or ('eq', 0x10b) in m and ('eq', 0x20b) in m:
                continue        # the header, read again after the position was restored, is still the same
            alts = [w for w, x in ((32, 0x10b), (64, 0x20b)) if ('ne', x) not in m]
            e = [w for w, x in ((32, 0x10b), (64, 0x20b)) if ('eq', x) in m]
            k = e or (alts if ('ne', 0x10b) in m or ('ne', 0x20b) in m else [])
            if v is None or v[0] != 'c':
                # a choice made by value: the magic number is compared in the result itself
                t = v
                while t is not None and t[0] == 'cast':
                    t = t[4]
                ok = t is not None and t[0] == 'cmp' and t[1] in ('eq', 'ne') and t[3][0] == 'c' and t[3][1] in (0x10b, 0x20b)
                if ok:
                    one = {('eq', 0x20b): 64, ('ne', 0x10b): 64, ('eq', 0x10b): 32, ('ne', 0x20b): 32}[(t[1], t[3][1])]
                    ok = num[one] == 1 and num[96 - one] == 0 and bool(m or True)
                if not ok:
                    bad = 'the kind reported does not follow the magic number'
            elif len(k) != 1 or num[k[0]] != v[1]:
                bad = 'the kind reported does not follow the magic number'
        ck.ob(bad is None and bool(P.rets), f.short + ': follows the magic number', where(f), bad or 'never returns')
