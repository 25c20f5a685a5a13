"""P16: rebuilding a directory records it in the header exactly when asked to, at the place and with the size that are returned."""
import multiprocessing
from .. import ir, heap, objs
from ..heap import C
from ..build import Broken
from .p12 import where, last
from .p09 import width

# public rebuilders (or the variants they hand over to): directory number, index of section, save flag, strip flag
# flags: argument number, or reporting function of the settings argument (number, name)
TABLE = {'rebuild_exports': (0, 3, 5, 6), 'rebuild_resources': (2, 2, 4, 5), 'rebuild_relocations': (5, 2, 5 - 1, 5),
         'rebuild_tls_base': (9, 2, 7, 8), 'rebuild_image_config_base': (10, 2, 6, 7), 'rebuild_bound_imports': (11, 2, 4, 5),
         'rebuild_imports_base': (1, 2, (3, 'auto_set_to_pe_headers'), (3, 'auto_strip_last_section_enabled'))}
READS = ('get_raw_data', 'section_data_from_rva', 'section_data_from_va', 'section_from_rva', 'section_from_va', 'section_from_directory', 'rva_from_section_offset', 'get_image_sections')
SAVES = ('set_directory_rva', 'set_directory_size')
EXTRA = {'rebuild_relocations': ('clear_characteristics_flags', 'set_dll_characteristics')}
SIZES = ('recalculate_section_sizes',)
GROW = {'rebuild_tls_base': ('expand_section',)}


def leaf(c):
    """(term, polarity) of a condition on a truth value"""
    pol = True
    while True:
        if c[0] == 'op' and c[1] == 'xor' and c[4] == C(1, c[2]):
            c, pol = c[3], not pol
        elif c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3][0] == 'c' and c[3][1] in (0, 1):
            pol = pol if (c[1] == 'ne') == (c[3][1] == 0) else not pol
            c = c[2]
        elif c[0] == 'cast' or c[0] == 'op' and c[1] == 'and' and c[4][0] == 'c' and c[4][1] == 1:
            c = c[4] if c[0] == 'cast' else c[3]
        else:
            return c, pol


def bare(t):
    """without the marks of when memory was read"""
    if isinstance(t, tuple):
        if t[:1] == ('ld',) and len(t) == 5:
            return ('ld', bare(t[1]), bare(t[2]), t[3], 0)
        if t[:1] == ('call',) and len(t) in (4, 5):
            return ('call', t[1], bare(t[2]), 0 if len(t) == 4 else t[3])
        return tuple(bare(x) for x in t)
    return t


def truth(s, want):
    want = bare(want)
    r = set()
    for c in s.conds:
        t, pol = leaf(c)
        if bare(t) == want:
            r.add(pol)
    return r.pop() if len(r) == 1 else None


def parts(v):
    """the two halves of a returned directory"""
    if v is None:
        return None
    if v[0] == 'op' and v[1] in ('or', 'add') and v[2] == 64:
        for a, b in ((v[3], v[4]), (v[4], v[3])):
            if a[0] == 'cast' and a[1] == 'zext' and b[0] == 'op' and b[1] == 'shl' and b[4] == C(32, 64) and b[3][0] == 'cast' and b[3][1] == 'zext':
                return a[4], b[3][4]
            if a[0] == 'cast' and a[1] == 'zext' and b[0] == 'c' and not b[1] & 0xffffffff:
                return a[4], C(b[1] >> 32, 32)
    return None


def flagterm(P, p, views, f, flag):
    if isinstance(flag, int):
        return ('a', flag, 1)
    k, g = flag
    t = views.get(g)
    return None if t is None else ('ld', ('arg', k), t[0], t[1], 0)


def settings():
    """where the reporting functions of the import settings read"""
    p = ir.load('acc')
    r = {}
    for f in p.repo_fns():
        if 'import_rebuilder_settings::' in f.name and f.has_body and len(f.args) == 1:
            P = heap.Paths(p, f)
            for v, s in P.rets:
                if v is not None:
                    t, pol = leaf(v)
                    if t[0] == 'ld' and t[1] == ('arg', 0) and pol:
                        r[last(f.name)] = (t[2], t[3])
    return r


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18', 'tools/irx', 'pv/heap.py']
    ck.explanation = ('Every path of every rebuilding function is summarised. On each path that returns, the entry of the directory is set exactly when the flag asks for it, to the two values '
                      'that are returned; nothing else in the headers is set otherwise; and the section sizes are recalculated after the contents were changed, with the strip flag given.')
    p = ir.load('mod')
    views = settings()
    n, work = 0, []
    heap.MAXPATHS = 2500000
    for f in sorted(p.repo_fns(), key=lambda f: f.dem):
        base = last(f.name)
        if not f.has_body or base.split('<')[0] not in TABLE or 'pe_base&' not in f.dem:
            continue
        n += 1
        work.append((f, base.split('<')[0]))
    JOB.update(p=p, views=views, work=work)
    with multiprocessing.get_context('fork').Pool(min(8, max(1, len(work)))) as pool:
        for obs in pool.map(job, range(len(work)), 1):
            for o in obs:
                ck.ob(*o)
    if n < 7:
        raise Broken('only %d rebuilding functions found' % n)
    ck.count('functions', n)


JOB = {}


class Collect(object):
    def __init__(self):
        self.obs = []

    def ob(self, *a):
        self.obs.append(a)


def job(k):
    f, base = JOB['work'][k]
    c = Collect()
    one(c, JOB['p'], f, base, JOB['views'])
    return c.obs


def one(ck, p, f, base, views):
    K, sec, save, strip = TABLE[base]
    label = f.short
    mut = set()
    for i in f.calls():
        g = p.fns.get(i.callee) if i.callee else None
        if g is not None and g.name.startswith('pe_bliss::pe_base::') and not g.dem.endswith('const') and last(g.name) not in READS:
            mut.add(last(g.name))
    P = heap.Paths(p, f, own=[('arg', 0)], watch=tuple(mut | set(SAVES + SIZES)))
    ck.ob(P.complete and bool(P.rets), label + ': analysable', where(f), 'the function could not be analysed')
    sf, tf = flagterm(P, p, views, f, save), flagterm(P, p, views, f, strip)
    res = {}

    def put(k, ok, msg, loc=None):
        r = res.setdefault(k, [True, loc or where(f), ''])
        if not ok and r[0]:
            res[k] = [False, loc or where(f), msg]
    both = set()
    for v, s in P.rets:
        log = [P.seen[k] for b, k in s.visit.get('log', ())]
        calls = [(last(g.name), a, i) for i, g, a, _ in log if g is not None]
        on = truth(s, sf)
        both.add(on)
        pr = parts(v)
        put('returns the place in the section', pr is not None and pr[0][0] == 'call' and last(pr[0][1]) == 'rva_from_section_offset' and pr[0][2][0] == ('p', ('arg', sec), 0),
            'the address returned is not one in the given section')
        sets = [(x, a, i) for x, a, i in calls if x in SAVES]
        mine = [(x, a, i) for x, a, i in sets if a[1] == C(K, 32)]
        if on is None:
            put('recorded exactly on request', not sets, 'the directory is recorded although the flag was not tested', sets[0][2].loc if sets else None)
        elif on:
            put('recorded exactly on request', set(x for x, a, i in mine) == set(SAVES), 'the directory is not recorded although it was asked for')
            for x, a, i in mine:
                w = None if pr is None else pr[0] if x == 'set_directory_rva' else pr[1]
                put('recorded as returned', w is not None and bare(a[2]) == bare(w), 'the value recorded is not the one returned', i.loc)
        else:
            put('recorded exactly on request', not sets, 'the directory is recorded although it was not asked for', sets[0][2].loc if sets else None)
        for x, a, i in sets:
            if a[1] != C(K, 32):
                ok = base == 'rebuild_imports_base' and a[1] == C(12, 32) and a[2] == C(0, 32) and iat(s, views) is True
                put('no other directory is touched', ok, 'the entry of another directory is set', i.loc)
        if base == 'rebuild_imports_base' and on:
            z = [x for x, a, i in sets if a[1] == C(12, 32)]
            w = iat(s, views)
            put('address table entry cleared exactly on request', w is not None and (set(z) == set(SAVES) if w else not z) or w is None and not z, 'the entry of the address table does not follow the setting')
        for x, a, i in calls:
            if x in SAVES + SIZES + GROW.get(base, ()):
                continue
            ok = x in EXTRA.get(base, ()) and on is True
            put('no other header field is touched', ok, 'the header is changed by %s' % x, i.loc)
        if base in EXTRA:
            extra(put, calls, on)
        sz = [(a, i) for x, a, i in calls if x in SIZES]
        put('section sizes recalculated', len(sz) >= 1, 'the section sizes are not recalculated')
        for a, i in sz:
            t, pol = leaf(a[2])
            ok = a[0] == ('p', ('arg', 0), 0) and a[1] == ('p', ('arg', sec), 0) and (pol and bare(t) == bare(tf) or t[0] == 'c' and truth(s, tf) == bool(t[1]))
            put('section sizes recalculated', ok, 'the section sizes are recalculated for another section, or the strip flag is not passed on', i.loc)
    put('recorded exactly on request', True in both and False in both, 'the flag is not followed')
    for k in sorted(res):
        ok, loc, msg = res[k]
        ck.ob(ok, label + ': ' + k, loc, msg)


def iat(s, views):
    t = views.get('zero_directory_entry_iat')
    return None if t is None else truth(s, ('ld', ('arg', 3), t[0], t[1], 0))


def extra(put, calls, on):
    """relocations: the image is marked as relocatable"""
    a = [c for c in calls if c[0] == 'clear_characteristics_flags']
    b = [c for c in calls if c[0] == 'set_dll_characteristics']
    if on:
        put('marked as relocatable exactly on request', any(c[1][1] == C(1, 16) for c in a) and all(c[1][1] == C(1, 16) for c in a), 'the stripped flag is not cleared, or another is')
        ok = any(c[1][1][0] == 'op' and c[1][1][1] == 'or' and c[1][1][4] == C(0x40, 16) and c[1][1][3][0] == 'call' and last(c[1][1][3][1]) == 'get_dll_characteristics' for c in b)
        put('marked as relocatable exactly on request', ok, 'the dynamic base flag is not added')
    else:
        put('marked as relocatable exactly on request', not a and not b, 'the image is marked although the directory was not to be recorded')
