"""P29: what a rebuilder writes is the given data, every value in the place the format gives it."""
import multiprocessing, re
from .. import bounds, ir, heap
from ..absint import mkptr
from ..build import Broken
from ..heap import C
from ..wstream import *
from .p11 import View
from .p12 import where as fnloc
from .p16 import parts

ATOM = lambda a: ('L', frozenset([(a, 1)]), 0)


def argpos(k, n=4):
    """the position argument k rounded up to n bytes; itself where it is known to be a multiple"""
    j = n.bit_length() - 1

    def f(W):
        x = ATOM(('a', k))
        r = [plus(lin(heap.mkop('and', 32, ('a', k, 32), C((1 << 32) - n, 32)), 32), n)]
        for c in W.ctx.conds:
            t, pol = W.leaf(c)
            if not pol and canon(t) in (ATOM(('low', j, narrow(x, j))), ATOM(('low', j, x))):
                r.append(x)
        return r
    return f


def base_of(W, name):
    """where a sequence starts on this path"""
    r = W.starts.get(name)
    return [r] if r else []


def call(t, name):
    """the arguments when a number is the result of a function"""
    if t[0] == 'L' and len(t[1]) == 1 and t[2] == 0:
        (a, c), = t[1]
        if c == 1 and isinstance(a, tuple) and a[:1] == ('call',) and last(a[1]) == name:
            return a[2]
        if c == 1 and isinstance(a, tuple) and a[:1] == ('ld',) and a[1][0] == 'ref' and a[1][1][:1] == ('call',) and last(a[1][1][1]) == name and a[2] == 0:
            return a[1][1][2]
    return None


def rva(W, v, p):
    """v is the address of position p of the section"""
    a = call(v, 'rva_from_section_offset')
    return a is not None and len(a) >= 2 and a[-2] == W.section and a[-1] == p


rva.shape = lambda W, pc: pc.kind == 'v' and call(lin(pc.what, 8 * pc.n), 'rva_from_section_offset') is not None


def relative(to):
    def f(W, v, p):
        return any(narrow(plus(p, q, -1), 16) == narrow(v, 16) for q in base_of(W, to))
    return f


SPECS = []


def spec(pat, section, modes=('mod',)):
    def d(fn):
        SPECS.append((pat, section, fn))
        return fn
    return d


@spec('rebuild_bound_imports', 2)
def bound(W):
    t = Text
    name = lambda c: Pos('names', relative('descriptors'), 'the offset of the name from the start of the directory')
    return [
        Stream('names', [Kind('module name', [(0, None, Text('bound_import', 'get_module_name'))], size='piece', over=('arg', 1)),
                         Kind('forwarder name', [(0, None, Text('bound_import_ref', 'get_module_name'))], size='piece', over=('bound_import', 'get_module_ref_list'))]),
        Stream('descriptors', [Kind('descriptor', [(0, 4, Get('bound_import', 'get_timestamp')), (4, 2, name('bound_import')), (6, 2, Count('bound_import', 'get_module_ref_list'))], over=('arg', 1)),
                               Kind('forwarder reference', [(0, 4, Get('bound_import_ref', 'get_timestamp')), (4, 2, name('bound_import_ref')), (6, 2, Zero())], over=('bound_import', 'get_module_ref_list')),
                               Kind('ending descriptor', [(0, 4, Zero()), (4, 2, Zero()), (6, 2, Zero())])], start=argpos(3), end=('ending descriptor',)),
    ]


@spec('rebuild_relocations', 2)
def relocs(W):
    def blocksize(W, n):
        x = ('L', frozenset((a, 2 * c) for a, c in n[1]), 8)
        return [x, plus(x, 2)]
    return [Stream('blocks', [Kind('block header', [(0, 4, Get('relocation_table', 'get_rva')), (4, 4, Count('relocation_table', 'get_relocations', blocksize, 'the size of the block'))], over=('arg', 1)),
                              Kind('item', [(0, 2, Bits('relocation_entry', 'get_item'))], over=('relocation_table', 'get_relocations')),
                              Kind('padding', [(0, 2, Zero())])], start=argpos(3))]


def header(W, o, name='header'):
    """the position whose address the header holds at an offset"""
    r = []
    for x in W.known.get(name, ()):
        pc = x.val.get(o)
        a = call(lin(pc.what, 32), 'rva_from_section_offset') if pc is not None and pc.kind == 'v' else None
        if a is not None and len(a) >= 2 and a[-2] == W.section:
            r.append(a[-1])
    return r or None


def address(cls=None):
    return lambda W, pc, E: [E] if pc.kind == 'v' and call(lin(pc.what, 32), 'rva_from_section_offset') is not None else []


def order(W, s, x, y):
    """what the conditions tell about x < y: True, False or None"""
    r = set()
    for c in s.conds:
        t, pol = W.leaf(c)
        if t[0] != 'cmp' or t[1] not in ('ult', 'ule', 'ugt', 'uge', 'slt', 'sgt', 'eq', 'ne'):
            continue
        w = min(heap.bits(t[2]), 32)
        a, b = lin(t[2], w), lin(t[3], w)
        for k, u, v, neg in (('ult', x, y, False), ('ugt', y, x, False), ('uge', x, y, True), ('ule', y, x, True), ('eq', x, y, None), ('eq', y, x, None)):
            if (a, b) == (u, v) and t[1] == k:
                if neg is None:
                    if pol:
                        r.add(False)
                else:
                    r.add(pol != neg)
    return True if True in r else False if False in r else None


def atom(t):
    """the atom of a term that is nothing else"""
    if t[0] == 'L' and len(t[1]) == 1 and t[2] == 0:
        (a, c), = t[1]
        if c == 1:
            return a
    return None


def elements(W, s, what):
    """current elements of a list on a path"""
    r = set()
    for c in s.conds:
        bases(canon(c), r)
    return [e for e in set((b, 0) for b, o in r if b[0] == 'ref') if W.over(what, e)]


def carried(W, a):
    """(entries, [(state, element candidates, next)]) of a value carried around a loop"""
    if not (isinstance(a, tuple) and a[:1] in (('rec',), ('iter',))):
        return None
    h = a[1]
    ent, nxt = [], []
    for s in [s for L in W.P.backs.values() for s in L] + [s for v, s in W.P.rets]:
        for k, cur, e in s.visit.get(('in', h), ()):
            if atom(lin(cur, 32)) == a:
                ent.append((lin(e, 32), s))
    for s in W.P.backs.get(h, ()):
        for k, cur, n in s.visit.get(('nx', h), ()):
            if atom(lin(cur, 32)) == a:
                nxt.append((s, lin(n, 32)))
    return ent, nxt, h


def empty(W, s, what):
    """the list is known to be empty on the path"""
    for c in s.conds:
        t, pol = W.leaf(c)
        if t[0] in ('call', 'ret') and last(t[1]) == 'empty' and t[2] and W.islist(what, ptr(t[2][0])) and pol:
            return True
    return False


def keepctx(fn):
    def f(W, *a, **k):
        c = W.ctx
        try:
            return fn(W, *a, **k)
        finally:
            W.ctx = c
    return f


@keepctx
def total(W, a, what, step, cond=None, start=0):
    """the carried value a is start plus the sum of step(element) over the elements of a list that satisfy a condition"""
    c = carried(W, a)
    if c is None:
        return False
    ent, nxt, h = c
    if not ent or not nxt or any(const(e) != start for e, s in ent):
        return False
    for s, n in nxt:
        W.ctx = s
        d = plus(n, ('L', frozenset([(a, 1)]), 0), -1)
        es = step(W, d)
        if es and any((e is None or W.over(what, e)) and (cond is None or e is None and any(W.truth(s, cond[0], cond[1], x) is cond[2] for x in elements(W, s, what)) or e is not None and W.truth(s, cond[0], cond[1], e) is cond[2]) for e in es):
            continue
        if const(d) == 0 and cond is not None and any(W.truth(s, cond[0], cond[1], x) is (not cond[2]) for x in elements(W, s, what)):
            continue
        return False
    return not W.taken(h, what)


@keepctx
def extreme(W, a, what, cls, g, least):
    """the carried value a is the least (greatest) reported value of the elements of a list"""
    c = carried(W, a)
    if c is None:
        return False
    ent, nxt, h = c
    if not ent or not nxt:
        return False
    for e, s in ent:
        v = const(e)
        if not empty(W, s, what) and not (v is not None and (v & M32 >= 0xffff if least else v == 0)):
            return False
    me = ('L', frozenset([(a, 1)]), 0)
    for s, n in nxt:
        W.ctx = s
        ok = False
        es = elements(W, s, what)
        bs = bases(n, set())
        for e in set(es) | set(x for x in ((b, 0) for b, o in bs) if W.over(what, x)):
            for t in W.getter(cls, g):
                x = subst(lin(t, 32), e)
                lo = order(W, s, x, me) if least else order(W, s, me, x)
                hi = order(W, s, me, x) if least else order(W, s, x, me)
                if n == x and (lo is True or hi is False) or n == me and (lo is False or hi is True):
                    ok = True
        if not ok:
            return False
    return not W.taken(h, what)


class Field(Val):
    """a field of the object itself"""

    def __init__(self, off, size):
        self.off, self.size = off, size

    def ok(self, W, pc, E):
        if pc.kind != 'v':
            return []
        return W.objects(lin(pc.what, 8 * pc.n), [('L', frozenset([(('ld', ('arg', 0), self.off, self.size), 1)]), 0)], E)

    def __str__(self):
        return 'the value'


class Chars(Val):
    """a string that is a member of the object, and its terminator"""

    def __init__(self, off):
        self.off = off

    def ok(self, W, pc, E):
        if pc.kind != 't' or pc.what[0] != 'p' or not isinstance(pc.what[2], int) or pc.n != length_plus(pc.what, 1):
            return []
        e = (pc.what[1], pc.what[2] - self.off)
        return [e] if E is None or e == E else []

    def __str__(self):
        return 'the name and its terminator'


EXP = ('arg', 2)


def firstord(W, pc, E):
    """the least ordinal"""
    if pc.kind != 'v':
        return []
    a = atom(lin(pc.what, 32))
    if a not in W.memo:
        W.memo[a] = extreme(W, a, EXP, 'exported_function', 'get_ordinal', True)
    return [E] if W.memo[a] else []


@keepctx
def ordcount(W, pc, E):
    """greatest ordinal - least ordinal + 1"""
    v = lin(pc.what, 32) if pc.kind == 'v' else num(0)
    if v not in W.memo:
        ok = False
        pos = [a for a, c in v[1] if c == 1]
        neg = [a for a, c in v[1] if c == M32]
        if len(v[1]) == 2 and len(pos) == len(neg) == 1 and v[2] == 1:
            ok = extreme(W, pos[0], EXP, 'exported_function', 'get_ordinal', False) and extreme(W, neg[0], EXP, 'exported_function', 'get_ordinal', True)
            if ok:
                # no elements: no functions
                for s in [s for r, s in W.P.rets]:
                    es = dict((atom(lin(cur, 32)), lin(e, 32)) for k in s.visit if isinstance(k, tuple) and k[0] == 'in' for kk, cur, e in s.visit[k] if isinstance(cur, tuple) and cur[0] in ('op', 'any', 'cast', 'a', 'c', 'ld') and heap.bits(e) in (32, 64) and e[0] in ('op', 'any', 'cast', 'a', 'c', 'ld'))
                    if empty(W, s, EXP) and pos[0] in es and neg[0] in es and const(plus(plus(es[pos[0]], es[neg[0]], -1), 1)) != 0:
                        ok = False
        W.memo[v] = ok
    return [E] if W.memo[v] else []


def named(W, pc, E):
    """how many elements have a name"""
    a = atom(lin(pc.what, 32)) if pc.kind == 'v' else None
    if a not in W.memo:
        W.memo[a] = total(W, a, EXP, lambda W, d: [None] if const(d) == 1 else [], ('exported_function', 'has_name', True))
    return [E] if W.memo[a] else []


def gapsize(W, pc, E):
    """zero address table entries for unused ordinals: 4 bytes for every ordinal between the last function and this one"""
    if pc.kind != 'z' or not isinstance(pc.n, tuple):
        return []
    r = []
    for e in [E] if E is not None else [x for x in set((b, 0) for b, o in bases(pc.n, set())) if W.over(EXP, x)]:
        for t in W.getter('exported_function', 'get_ordinal'):
            o = subst(lin(t, 32), e)
            d = plus(plus(pc.n, ('L', frozenset((a, 4 * c & M32) for a, c in o[1]), 4 * o[2] & M32), -1), 4)
            if len(d[1]) == 1 and d[2] == 0 and list(d[1])[0][1] == (-4) & M32 and lastord(W, list(d[1])[0][0]) and order(W, W.ctx, ('L', frozenset([(list(d[1])[0][0], 1)]), 0), o) is True:
                r.append(e)
    return r


@keepctx
def lastord(W, a):
    """the ordinal of the last function, at first the least one"""
    k = ('lastord', a)
    if k not in W.memo:
        W.memo[k] = False
        c = carried(W, a)
        ok = c is not None and c[0] and c[1]
        me = ('L', frozenset([(a, 1)]), 0)
        for e, s in c[0] if ok else ():
            b = atom(e)
            if ('base', b) not in W.memo:
                W.memo[('base', b)] = extreme(W, b, EXP, 'exported_function', 'get_ordinal', True)
            ok = ok and W.memo[('base', b)]
        for s, n in c[1] if ok else ():
            W.ctx = s
            good = False
            for e in set(elements(W, s, EXP)) | set((b, 0) for b, o in bases(n, set())):
                for t in W.getter('exported_function', 'get_ordinal'):
                    x = subst(lin(t, 32), e)
                    if n == x or n == me and order(W, s, me, x) is False:
                        good = True
            ok = ok and good
        W.memo[k] = ok
    return W.memo[k]


@spec('rebuild_exports', 3)
def exports(W):
    g = lambda n: Get('export_info', n)
    M = lambda W, c: c[0] == 'p' and c[1][0] == 'loc'
    adr = lambda to: Pos(to, rva, 'the address of ' + to)
    return [
        Stream('header', [Kind('header', [(0, 4, g('get_characteristics')), (4, 4, g('get_timestamp')), (8, 2, g('get_major_version')), (10, 2, g('get_minor_version')),
                                          (12, 4, Pos('dll name', rva, 'the address of the library name')), (16, 4, Check(firstord, 'the least ordinal')), (20, 4, Check(ordcount, 'the number of ordinals')), (24, 4, Check(named, 'the number of names')),
                                          (28, 4, Check(address(), 'the address of the functions')), (32, 4, Check(address(), 'the address of the name addresses')), (36, 4, Check(address(), 'the address of the name ordinals'))], over=('obj', 1))],
               start=argpos(4), once=True),
        Stream('dll name', [Kind('library name', [(0, None, Text('export_info', 'get_name'))], size='piece', over=('obj', 1))], start=lambda W: header(W, 12), once=True),
        Stream('forwarded names', [Kind('forwarded name', [(0, None, Text('exported_function', 'get_forwarded_name'))], size='piece', over=EXP, cond=[('exported_function', 'is_forwarded', True)])]),
        Stream('functions', [Kind('function address', [(0, 4, Get('exported_function', 'get_rva'))], over=EXP, cond=[('exported_function', 'is_forwarded', False)]),
                             Kind('forwarder address', [(0, 4, adr('forwarded names'))], cond=[]),
                             Kind('gap', [(0, None, Check(gapsize, 'unused ordinals'))], size='piece', over=EXP)], start=lambda W: header(W, 28)),
        Stream('names', [Kind('name', [(0, None, Chars(0))], size='piece', over=M)]),
        Stream('name addresses', [Kind('name address', [(0, 4, adr('names'))])], start=lambda W: header(W, 32)),
        Stream('name ordinals', [Kind('name ordinal', [(0, 2, Field(32, 2))], over=M)], start=lambda W: header(W, 36)),
    ]


def va_of(W, v, cls, g, E):
    """a virtual address written is that of a reported relative address"""
    a = call(v, 'rva_to_va')
    return a is not None and any(isinstance(x, tuple) and x[:1] == ('L',) and narrow(x, 32) == subst(lin(t, 32), E) for x in a for t in W.getter(cls, g))


def maybe_va(cls, g, j, always=False):
    """virtual address of a reported relative address, 0 when that is 0"""
    def f(W, pc, E):
        e = (('arg', j), 0)
        if pc.kind == 'z':
            return [e] if not always and W.truth(W.ctx, cls, g, e) is False else []
        return [e] if va_of(W, lin(pc.what, 8 * pc.n), cls, g, e) and W.truth(W.ctx, cls, g, e) is True else []
    return Check(f, 'the virtual address of ' + g)


def if_set(cls, g, j, cond):
    """a reported value, which may be left out when another one is 0"""
    def f(W, pc, E):
        e = (('arg', j), 0)
        if pc.kind == 'z' and W.truth(W.ctx, cls, cond, e) is False:
            return [e]
        return Get(cls, g).ok(W, pc, e)
    return Check(f, g)


def reported(W, cls, g, j):
    return [subst(lin(t, 32), (('arg', j), 0)) for t in W.getter(cls, g)]


def raw_size(W, pc, E):
    """the raw data from its start, as much as there is of it and room for it"""
    e = (('arg', 1), 0)
    if pc.kind != 't' or not any(pc.what == subst(canon(t), e) for t in W.getter('tls_info', 'get_raw_data')):
        return []
    st, en = reported(W, 'tls_info', 'get_raw_data_start_rva', 1), reported(W, 'tls_info', 'get_raw_data_end_rva', 1)
    sizes = [plus(b, a, -1) for a in st for b in en] + [length_plus(pc.what, 0)]
    if pc.n in sizes:
        return [e]
    a = call(pc.n, 'section_data_length_from_rva') if isinstance(pc.n, tuple) else None
    return [e] if a and any(x in st for x in a) else []


def callback_table(W, pc, E):
    """a vector that is copied from its first element"""
    if pc.kind != 't' or pc.what[0] != 'p' or pc.what[1][0] != 'loc':
        return []
    e = (('arg', 1), 0)
    r = []
    for t in W.getter('tls_info', 'get_tls_callbacks'):
        n = length_plus(subst(canon(t), e), 0)
        full = ('L', frozenset((a, W.w * c) for a, c in n[1]), W.w)
        if pc.n == full:
            r.append(e)
        a = call(pc.n, 'section_data_length_from_rva') if isinstance(pc.n, tuple) else None
        if a and any(x in reported(W, 'tls_info', 'get_callbacks_rva', 1) for x in a):
            r.append(e)
    if r:
        W.memo.setdefault('vectors', set()).add(pc.what)
    return r


@spec('rebuild_tls_base', 2)
def tls(W):
    w = W.w
    g = lambda n: Get('tls_info', n)
    v = lambda n, always=False: maybe_va('tls_info', n, 1, always)
    return [
        Stream('header', [Kind('header', [(0, w, v('get_raw_data_start_rva')), (w, w, v('get_raw_data_end_rva')), (2 * w, w, v('get_index_rva', True)), (3 * w, w, v('get_callbacks_rva')),
                                          (4 * w, 4, if_set('tls_info', 'get_size_of_zero_fill', 1, 'get_raw_data_start_rva')), (4 * w + 4, 4, g('get_characteristics'))], over=('obj', 1))],
               start=argpos(3, w), once=True, must=True),
        Stream('raw data', [Kind('raw data', [(0, None, Check(raw_size, 'the raw data'))], size='piece')], start=lambda W: reported(W, 'tls_info', 'get_raw_data_start_rva', 1), space='image', once=True),
        Stream('callbacks', [Kind('callbacks', [(0, None, Check(callback_table, 'the addresses of the callbacks'))], size='piece')], start=lambda W: reported(W, 'tls_info', 'get_callbacks_rva', 1), space='image', once=True),
    ]


def asked(stream, cls, g, flag, j):
    """records of a sequence are written exactly when they are asked for and there is something to write (with the flag bound, see VARIANTS)"""
    def f(W):
        bad = set()
        n = 0
        for h, s, recs in W.ends:
            if h is not None:
                continue
            W.ctx = s
            have = bool(recs.get(stream))
            on = W.bind.get(flag)
            if have and not on:
                bad.add('%s is written although it is not asked for' % stream)
            t = W.truth(s, cls, g, (('arg', j), 0))
            if on and not have and t is not False and not nothing(W, s, j):
                bad.add('%s is not written although it is asked for' % stream)
            n += have
        if W.bind.get(flag) and not n:
            bad.add('%s is never written' % stream)
        return sorted(bad)
    return f


def nothing(W, s, j):
    """the size to write is known to be 0 on the path"""
    st, en = reported(W, 'tls_info', 'get_raw_data_start_rva', j), reported(W, 'tls_info', 'get_raw_data_end_rva', j)
    for c in s.conds:
        t, pol = W.leaf(c)
        if t[0] == 'cmp' and t[1] in ('eq', 'ne') and pol == (t[1] == 'eq') and (lin(t[2], 32), lin(t[3], 32)) in [(a, b) for a in st for b in en] + [(b, a) for a in st for b in en]:
            return True
        if t[0] == 'cmp' or pol:
            continue
        x = lin(t, 32)
        if x in [plus(b, a, -1) for a in st for b in en] or call(x, 'section_data_length_from_rva') or any(x == length_plus(subst(canon(q), (('arg', j), 0)), 0) for q in W.getter('tls_info', 'get_raw_data')):
            return True
    return False


def collected(what, conv, tail):
    """a local vector gets the converted elements of a list one after the other and then one 0"""
    def f(W):
        vec = W.memo.get('vectors', set())
        bad = set()
        if not vec:
            return []
        n = 0
        for h, s, recs in W.ends:
            W.ctx = s
            log = s.visit.get('log', ())
            if h is not None:
                es = elements(W, s, what)
                if not es:
                    loc = W.element(s, h, what)
                    if loc is None:
                        continue
                push = [c for c in iteration(W, s, h) if last(c[1].name) in ('push_back', 'emplace_back') and ptr(c[2][0]) in vec]
                loc = W.element(s, h, what)
                if loc is None:
                    if push:
                        bad.add('something else is added in a loop')
                    continue
                n += 1
                if len(push) != 1:
                    bad.add('an element is added %d times' % len(push))
                    continue
                v = W.P.load(push[0][3], push[0][2][1], W.w, None)
                if not conv(W, lin(v, 8 * W.w), loc):
                    bad.add('%s is added for an element' % say(lin(v, 8 * W.w)))
                bad |= set(W.taken(h, what))
            elif recs.get('callbacks'):
                push = [W.P.seen[k] for b, k in log if W.inner(b) is None and last(W.P.seen[k][1].name) in ('push_back', 'emplace_back') and ptr(W.P.seen[k][2][0]) in vec]
                vals = [W.P.load(c[3], c[2][1], W.w, None) for c in push]
                if len(vals) != 1 or vals[0][0] != 'c' or vals[0][1]:
                    bad.add('the list does not end with one 0')
        if not n:
            bad.add('no element is added')
        return sorted(bad)
    return f


def va_elem(W, v, loc):
    """the virtual address of the element an iterator refers to"""
    a = call(v, 'rva_to_va')
    for x in a or ():
        y = atom(x) if isinstance(x, tuple) and x[:1] == ('L',) else None
        if y is not None and y[0] == 'ld' and y[1][0] == 'ref' and y[1][1][0] == 'call' and last(y[1][1][1]) == 'operator*' and y[1][1][2][0] == ('p',) + loc and y[2] == 0:
            return True
    return False


def conv_va(W, v):
    a = call(v, 'rva_to_va')
    r = [narrow(x, 32) for x in a or () if isinstance(x, tuple) and x[:1] == ('L',)]
    return r[0] if len(r) == 1 else None


def table_va(stream, g, flag, rvas):
    """virtual address of the table that is written, 0 when it would be empty, the reported address when no table is asked for"""
    def f(W, pc, E):
        e = (('arg', 1), 0)
        on = W.bind.get(flag)
        if not on:
            return Get('image_config_info', g).ok(W, pc, e)
        none = any(W.leaf(c)[1] and W.leaf(c)[0][0] in ('call', 'ret') and last(W.leaf(c)[0][1]) == 'empty' and any(ptr(W.leaf(c)[0][2][0]) == subst(canon(t), e) for t in W.getter('image_config_info', rvas)) for c in W.ctx.conds)
        if pc.kind == 'z':
            return [e] if none else []
        a = call(lin(pc.what, 8 * pc.n), 'rva_to_va')
        for x in a or ():
            b = call(narrow(x, 32), 'rva_from_section_offset') if isinstance(x, tuple) and x[:1] == ('L',) else None
            if b is not None and b[-2] == W.section:
                W.memo[('table', stream, id(W.ctx))] = b[-1]
                return [] if none else [e]
        return []
    return Check(f, 'the address of the ' + stream)


def at_table(stream):
    def f(W):
        p = W.memo.get(('table', stream, id(W.ctx)))
        return None if p is None else [p]
    return f


def copy_of(g):
    """a local copy of a list that has been sorted"""
    def f(W, c):
        if c[0] != 'p' or c[1][0] != 'loc':
            return any(c == subst(canon(t), (('arg', 1), 0)) for t in W.getter('image_config_info', g))
        k = ('copy', g, c)
        if k not in W.memo:
            qs = set(W.P.content(s, c)[:3] for h, L in W.P.backs.items() for s in L)
            W.memo[k] = any(('init',) + subst(canon(t), (('arg', 1), 0))[1:] in qs for t in W.getter('image_config_info', g)) and all(q[0] in ('init', 'dead') for q in qs)
        return W.memo[k]
    return f


@spec('rebuild_image_config_base', 2)
def config(W):
    w = W.w
    g = lambda n: Get('image_config_info', n)
    H = [(0, 4, Term(lambda W: [num(72 if w == 4 else 112)], 'the size of the structure')), (4, 4, g('get_time_stamp')), (8, 2, g('get_major_version')), (10, 2, g('get_minor_version')), (12, 4, g('get_global_flags_clear')),
         (16, 4, g('get_global_flags_set')), (20, 4, g('get_critical_section_default_timeout')), (24, w, g('get_decommit_free_block_threshold')), (24 + w, w, g('get_decommit_total_free_threshold')),
         (24 + 2 * w, w, table_va('lock prefixes', 'get_lock_prefix_table_va', 5, 'get_lock_prefix_rvas')), (24 + 3 * w, w, g('get_max_allocation_size')), (24 + 4 * w, w, g('get_virtual_memory_threshold'))]
    H += [(44, 4, g('get_process_heap_flags')), (48, 4, g('get_process_affinity_mask'))] if w == 4 else [(64, 8, g('get_process_affinity_mask')), (72, 4, g('get_process_heap_flags'))]
    o = 52 if w == 4 else 76
    H += [(o, 2, g('get_service_pack_version')), (o + 2, 2, Zero()), (o + 4, w, g('get_edit_list_va')), (o + 4 + w, w, g('get_security_cookie_va')),
          (o + 4 + 2 * w, w, table_va('exception handlers', 'get_se_handler_table_va', 4, 'get_se_handler_rvas')), (o + 4 + 3 * w, w, Count('image_config_info', 'get_se_handler_rvas'))]
    locks = copy_of('get_lock_prefix_rvas')
    return [
        Stream('header', [Kind('header', H, over=('obj', 1))], start=argpos(3, w), once=True, must=True),
        Stream('exception handlers', [Kind('exception handler', [(0, 4, Elem(4))], over=copy_of('get_se_handler_rvas'))], start=at_table('exception handlers')),
        Stream('lock prefixes', [Kind('lock prefix', [(0, w, Elem(4, conv_va))], over=locks), Kind('ending null', [(0, w, Zero())])], start=at_table('lock prefixes'), end=('ending null',)),
    ]


def sorted_copy(W):
    """the table of handlers is a sorted copy"""
    bad = set()
    n = 0
    for h, s, recs in W.ends:
        if h is None or not [r for r in recs.get('exception handlers', ()) if r.loop == h]:
            continue
        W.ctx = s
        for r in recs['exception handlers']:
            c, l = W.container(r.E)
            n += 1
            k = [x for x in [W.P.seen[j] for b, j in s.visit.get('log', ())] if last(x[1].name) in ('sort', 'stable_sort', 'push_back', 'emplace_back', 'resize')]
            k = [x for x in k if len(x[2]) == 2 and all(y[0] in ('call', 'ret') and ptr(y[2][0]) == c for y in x[2]) and [last(y[1]) for y in x[2]] == ['begin', 'end'] and len(x[1].params) == 2]
            if not k:
                bad.add('the handlers are not sorted')
    if W.bind.get(4) and not n:
        bad.add('no handlers are written')
    return sorted(bad)


def tables(W):
    """a table that is asked for and not empty is written"""
    bad = set()
    for h, s, recs in W.ends:
        if h is not None:
            continue
        for st in ('lock prefixes',):
            if ('table', st, id(s)) in W.memo and not recs.get(st):
                bad.add('the %s are not written' % st)
    return sorted(bad)


SET = 'import_rebuilder_settings'


def flags(W):
    """the settings as far as the path knows them; per library: whether it has addresses of its own"""
    s = W.ctx
    r = dict((n, W.truth(s, SET, g, (('arg', 3), 0))) for n, g in (('S', 'save_iat_and_original_iat_rvas'), ('B', 'build_original_iat'), ('F', 'fill_missing_original_iats'), ('R', 'rewrite_iat_and_original_iat_contents')))
    for n, g in (('I', 'get_rva_to_iat'), ('O', 'get_rva_to_original_iat')):
        x = set(W.truth(s, 'import_library', g, e) for e in elements(W, s, ('arg', 1)))
        r[n] = x.pop() if len(x) == 1 else None
    return r


def cases(W):
    """every assignment of the settings that the path allows"""
    fl = flags(W)
    import itertools
    free = [k for k in 'SBFRIO' if fl[k] is None]
    for v in itertools.product((False, True), repeat=len(free)):
        d = dict(fl)
        d.update(zip(free, v))
        d['S'] = d['S'] and d['I']                                  # the tables of the library are kept
        d['over'] = d['S'] and d['R'] and d['B'] and d['O']         # the kept lookup table is rewritten
        d['orig'] = not d['S'] and d['B'] or d['F'] or d['over']    # a lookup table is written
        yield d


def first_thunk(W, r, got):
    ds = list(cases(W))
    if all(d['S'] for d in ds):
        return any(subst(lin(t, 32), r.E) == got for t in W.getter('import_library', 'get_rva_to_iat'))
    return None if all(not d['S'] for d in ds) else False


def original_thunk(W, r, got):
    want = set(('0' if not d['B'] else 'new' if not d['S'] or d['F'] and not d['O'] else 'kept' if d['O'] else '0') for d in cases(W))
    kept = any(subst(lin(t, 32), r.E) == got for t in W.getter('import_library', 'get_rva_to_original_iat'))
    zero = const(got) == 0
    if len(want) == 1:
        return None if 'new' in want else zero or kept and want == {'kept'} or kept and any(d['B'] and d['S'] and not d['O'] for d in cases(W))
    return want == {'0', 'kept'} and kept and all(d['B'] for d in cases(W))


def by_ordinal(W, pc, E):
    """the ordinal with the highest bit set"""
    if pc.kind != 'v':
        return []
    t = pc.what
    while t[0] == 'cast' and t[1] == 'zext' and t[4][0] == 'op':
        t = t[4]
    if t[0] != 'op' or t[1] not in ('or', 'add', 'xor') or t[4] != C(1 << (8 * pc.n - 1), t[2]) or t[2] != 8 * pc.n:
        return []
    return W.objects(lin(t[3], 16), [lin(x, 16) for x in W.getter('imported_function', 'get_ordinal')], E)


def kept_value(W, pc, E):
    """the value the address table had, where a lookup table is written beside it"""
    if not all(d['orig'] for d in cases(W)):
        return []
    return Get('imported_function', 'get_iat_va').ok(W, pc, E)


def thunks(what, w, kept):
    funs = ('import_library', 'get_imported_functions')
    r = [Kind('%s entry by name' % what, [(0, w, Pos('strings', rva, 'the address of the hint and name', kind='hint and name'))]),
         Kind('%s entry by ordinal' % what, [(0, w, Check(by_ordinal, 'the ordinal'))], over=funs, cond=[('imported_function', 'has_name', False)]),
         Kind('end of %s' % what, [(0, w, Zero())])]
    if kept:
        r.insert(0, Kind('%s entry kept' % what, [(0, w, Check(kept_value, 'the value of the address table'))], over=funs))
    return r


def joined(o, orphan=False):
    """the sequence that a descriptor refers to: where the variable that holds the position began"""
    def f(W):
        for x in W.known.get('descriptors', ()):
            pc = x.val.get(o)
            a = call(lin(pc.what, 32), 'rva_from_section_offset') if pc is not None and pc.kind == 'v' else None
            if a is not None and a[-2] == W.section:
                for k in W.ctx.visit:
                    if isinstance(k, tuple) and k[0] == 'in':
                        for kk, cur, ent in W.ctx.visit[k]:
                            if isinstance(cur, tuple) and cur[0] in ('op', 'any', 'cast') and heap.bits(cur) == 32 and lin(cur, 32) == a[-1]:
                                return [lin(ent, 32)]
                return [a[-1]]
        return [None] if orphan else None
    return f


def of_library(g):
    def f(W):
        return [subst(lin(t, 32), e) for e in set(x.E for x in W.known.get('descriptors', ()) if x.E is not None) for t in W.getter('import_library', g)] or None
    return f


@spec('rebuild_imports_base', 2)
def imports(W):
    w = W.w
    lib = lambda n: Get('import_library', n)
    return [
        Stream('descriptors', [Kind('descriptor', [(0, 4, Carry('lookup table', rva, 'the address of the lookup table', original_thunk)), (4, 4, lib('get_timestamp')), (8, 4, Zero()), (12, 4, Pos('strings', rva, 'the address of the name', kind='library name')),
                                                   (16, 4, Carry('address table', rva, 'the address of the address table', first_thunk))], over=('arg', 1)),
                               Kind('ending descriptor', [(0, 4, Zero()), (4, 4, Zero()), (8, 4, Zero()), (12, 4, Zero()), (16, 4, Zero())])], end=('ending descriptor',), must=True),
        Stream('strings', [Kind('library name', [(0, None, Text('import_library', 'get_name'))], size='piece', over=('arg', 1)),
                           Kind('hint and name', [(0, 2, Get('imported_function', 'get_hint')), (2, None, Text('imported_function', 'get_name'))], size=lambda W, part: plus(part[2].n, 2), over=('import_library', 'get_imported_functions'),
                                cond=[('imported_function', 'has_name', True)])], start=lambda W: reported(W, SET, 'get_offset_from_section_start', 3)),
        Stream('address table', thunks('address table', w, True), start=joined(16)),
        Stream('lookup table', thunks('lookup table', w, False), start=joined(0, True)),
        Stream('kept address table', thunks('kept address table', w, True), start=of_library('get_rva_to_iat'), space='image', fresh=True),
        Stream('kept lookup table', thunks('kept lookup table', w, False), start=of_library('get_rva_to_original_iat'), space='image', fresh=True),
    ]


def written(W):
    """which tables are written follows from the settings"""
    bad = set()
    n = 0
    outer = set(h for h, s, recs in W.ends if any(r.kind.name == 'descriptor' and r.loop == h for r in recs.get('descriptors', ())))
    for h, s, recs in W.ends:
        if h is None:
            continue
        W.ctx = s
        inner = any(W.inner_of(h, g) for g in outer)
        if h not in outer and not inner:
            continue
        n += 1
        for st, want in (('address table', lambda d: not d['S']), ('kept address table', lambda d: bool(d['S'] and d['R'])), ('lookup table', lambda d: bool(d['orig'] and not d['over'])), ('kept lookup table', lambda d: bool(d['over']))):
            k = len([r for r in recs.get(st, ()) if r.loop == h])
            ws = set(want(d) for d in cases(W))
            if ws != {k == 1} or k > 1:
                bad.add('%s of %s written %d times although the settings %s' % ('an entry' if inner else 'the end', st, k, 'ask for it' if True in ws else 'do not ask for it'))
            for r in recs.get(st, ()):
                if r.loop != h:
                    continue
                if r.kind.name.startswith('end of') == inner:
                    bad.add('%s: %s in the wrong place' % (st, r.kind.name))
                if 'address table' in st and inner and ('kept' in r.kind.name.split('entry')[1]) != all(d['orig'] for d in cases(W)):
                    bad.add('%s: an entry has the wrong value' % st)
    if not n:
        bad.add('no descriptors')
    return sorted(bad)


def unnamed(W, s, h, loc):
    es = elements(W, s, ('import_library', 'get_imported_functions'))
    return any(W.truth(s, 'imported_function', 'has_name', e) is False for e in es)


class Via(Val):
    """a value of what a function of the object returns"""

    def __init__(self, get, val):
        self.get, self.val = get, val

    def ok(self, W, pc, E):
        r = []
        for e in self.val.ok(W, pc, None):
            if e is not None and e[1] == 0 and e[0][0] == 'ref' and e[0][1][0] == 'call' and last(e[0][1][1]) == self.get and e[0][1][2] and e[0][1][2][0][0] == 'p':
                x = e[0][1][2][0][1:]
                if (E is None or x == E) and x not in r:
                    r.append(x)
        return r

    def __str__(self):
        return str(self.val)


class Ucs2(Val):
    """the characters of a wide string and its terminator, as 16-bit units"""

    def __init__(self, cls, g):
        self.cls, self.g = cls, g

    def ok(self, W, pc, E):
        if pc.kind != 't':
            return []
        r = []
        for c in [W.P.seen[j] for b, j in W.ctx.visit.get('log', ())]:
            if last(c[1].name) != 'to_ucs2' or len(c[2]) != 2 or not source(W, pc.what, ptr(c[2][0])):
                continue
            for t in W.getter(self.cls, self.g):
                t, q = canon(t), ptr(c[2][1])
                if t[0] == 'p' and t[1] == ('arg', 0):
                    e = (q[1], q[2] - t[2])
                    if (E is None or e == E) and pc.n == ('L', frozenset([(('n', q), 2)]), 2) and e not in r:
                        r.append(e)
        return r

    def __str__(self):
        return '%s and its terminator' % self.g


def source(W, p, q):
    return p == q


def based(k, top=False):
    """the distance from the start of the directories; top: with the highest bit set"""
    def f(W, v, p):
        x = plus(p, ATOM(('a', k)), -1)
        if not top:
            return v == x
        a = atom(v)
        return a is not None and a[0] == 'op' and a[1] in ('or', 'xor') and x in a[3:] and num(1 << 31) in a[3:] or v == plus(x, 1 << 31)

    def shape(W, pc):
        v = lin(pc.what, 32) if pc.kind == 'v' else num(0)
        a = atom(v)
        return (a is not None and a[0] == 'op' and num(1 << 31) in a[3:] or v[2] >> 31 == 1) is top
    f.shape = shape
    return f


RE, RD = 'resource_directory_entry', 'resource_directory'
ENTRIES = ('obj', 2, 'get_entry_list')


@spec('rebuild_resource_directory', 1)
def resources(W):
    W.objcls = {2: RD}
    VERSIONED.update((('arg', 3), ('arg', 4), ('arg', 5)))
    at = lambda k: lin(('ld', ('arg', k), 0, 4, 0), 32)
    dirs = Term(lambda W: [], '')
    own = lambda g: Term(lambda W: [subst(lin(t, 32), (('arg', 2), 0)) for t in W.getter(RD, g)], g)

    def below(args):
        """the entry whose directory a recursive call writes"""
        q = ptr(args[2])
        if [canon(args[j]) for j in (0, 1, 3, 4, 5)] != [('p', ('arg', j), 0) for j in (0, 1, 3, 4, 5)] or lin(args[6], 32) != ATOM(('a', 6)):
            return None
        if q[1][0] != 'ref' or q[2] or q[1][1][0] != 'call' or last(q[1][1][1]) != 'get_resource_directory' or q[1][1][2][0][0] != 'p':
            return None
        return q[1][1][2][0][1:]
    W.below = below
    name = Pos('names', based(6, True), 'the offset of the name', kind='name')
    ident = Get(RE, 'get_id')
    data = Pos('data', based(6), 'the offset of the data entry', kind='data entry')
    sub = Pos('directories below', based(6, True), 'the offset of the directory', kind='below')
    kinds = []
    for n, v, x in (('named', name, True), ('numbered', ident, False)):
        for m, u, y in (('data', data, True), ('directory', sub, False)):
            kinds.append(Kind('entry of %s %s' % (n, m), [(0, 4, v), (4, 4, u)], over=ENTRIES, cond=[(RE, 'is_named', x), (RE, 'includes_data', y)]))
    cnt = Check(lambda W, pc, E: [E] if pc.kind == 'v' and atom(lin(pc.what, 16)) is not None and carried(W, atom(lin(pc.what, 16))) else [], 'the number of entries')

    def after(W):
        for x in W.known.get('header', ()):
            n = plus(lin(x.val[12].what, 16), lin(x.val[14].what, 16))
            return [plus(plus(x.pos, 16), ('L', frozenset((a, 8 * c) for a, c in n[1]), 8 * n[2]))]
        return None
    return [
        Stream('header', [Kind('header', [(0, 4, own('get_characteristics')), (4, 4, own('get_timestamp')), (8, 2, own('get_major_version')), (10, 2, own('get_minor_version')), (12, 2, cnt), (14, 2, cnt)])], start=lambda W: [at(3)], must=True, once=True),
        Stream('entries', kinds, start=lambda W: [plus(x.pos, 16) for x in W.known.get('header', ())] or None),
        Stream('names', [Kind('name', [(0, 2, Count(RE, 'get_name')), (2, None, Ucs2(RE, 'get_name'))], size=lambda W, part: plus(part[2].n, 2), over=ENTRIES, cond=[(RE, 'is_named', True)])],
               start=lambda W: [at(5)], ref=5),
        Stream('data', [Kind('data entry', [(0, 4, Pos('data', lambda W, v, p: rva(W, v, plus(p, 16)), 'the address of the data', kind='data entry')),
                                            (4, 4, Via('get_data_entry', Count('resource_data_entry', 'get_data'))), (8, 4, Via('get_data_entry', Get('resource_data_entry', 'get_codepage'))), (12, 4, Zero()),
                                            (16, None, Via('get_data_entry', Text('resource_data_entry', 'get_data', 0)))], size=lambda W, part: plus(part[16].n, 16),
                             over=ENTRIES, cond=[(RE, 'includes_data', True)])], start=lambda W: [at(4)], ref=4, align=4),
        Stream('directories below', [], start=after, ref=3),
    ]


# list, records of which exactly one is written per element, exceptions, name
EACH = {
    'rebuild_resource_directory': [(ENTRIES, tuple('entry of %s %s' % (a, b) for a in ('named', 'numbered') for b in ('data', 'directory')), None, 'entry')],
    'rebuild_bound_imports': [(('arg', 1), ('module name',), None, 'module name'), (('arg', 1), ('descriptor',), None, 'descriptor'),
                              (('bound_import', 'get_module_ref_list'), ('forwarder name',), None, 'forwarder name'),
                              (('bound_import', 'get_module_ref_list'), ('forwarder reference',), None, 'forwarder reference')],
    'rebuild_exports': [(('arg', 2), ('function address', 'forwarder address'), None, 'function'),
                        (lambda W, c: c[0] == 'p' and c[1][0] == 'loc', ('name',), None, 'name'), (lambda W, c: c[0] == 'p' and c[1][0] == 'loc', ('name ordinal',), None, 'name ordinal')],
    'rebuild_image_config_base': [(copy_of('get_se_handler_rvas'), ('exception handler',), None, 'exception handler'), (copy_of('get_lock_prefix_rvas'), ('lock prefix',), None, 'lock prefix')],
    'rebuild_imports_base': [(('arg', 1), ('descriptor',), None, 'descriptor'), (('arg', 1), ('library name',), None, 'library name'),
                             (('import_library', 'get_imported_functions'), ('hint and name',), unnamed, 'hint and name')],
    'rebuild_relocations': [(('arg', 1), ('block header',), None, 'block'), (('relocation_table', 'get_relocations'), ('item',), None, 'item')],
}


def iteration(W, s, h):
    """calls of interest in the last iteration of a loop"""
    return [W.P.seen[j] for b, j in s.visit.get('log', ())[s.visit[('at', h)][1]:]]


def by_name(W):
    """every function with a name, and no other, goes to the list of names with its ordinal counted from the least one"""
    loops = set()
    for h, s, recs in W.ends:
        for r in recs.get('functions', ()):
            if r.loop is not None and r.E is not None and r.kind.name != 'gap':
                W.ctx = s
                loops.add(W.container(r.E)[1] or r.loop)
    lists = set()
    for h, s, recs in W.ends:
        for r in recs.get('names', ()):
            if r.E is not None:
                W.ctx = s
                lists.add(W.container(r.E)[0])
    bad = set()
    n = 0
    for h, s, recs in W.ends:
        if h not in loops:
            continue
        W.ctx = s
        es = [r.E for r in recs.get('functions', ()) if r.loop == h and r.E is not None] + elements(W, s, EXP)
        calls = iteration(W, s, h)
        ins = [k for k, c in enumerate(calls) if last(c[1].name) in ('insert', 'emplace', 'operator[]') and c[2] and ptr(c[2][0]) in lists]
        has = set(W.truth(s, 'exported_function', 'has_name', e) for e in es)
        if has != {True} and has != {False}:
            bad.add('whether a function has a name is not looked at')
            continue
        if has == {False}:
            if ins:
                bad.add('a function without a name is added to the names')
            continue
        n += 1
        if len(ins) != 1:
            bad.add('a function with a name is added to the names %d times' % len(ins))
            continue
        c = calls[ins[0]]
        if last(c[1].name) != 'insert':
            continue
        mk = [x for x in calls[:ins[0]] if last(x[1].name) in ('make_pair', 'pair')]
        if not mk:
            continue
        q = mk[-1][2]
        if len(q) != 3:
            continue
        if not any(canon(q[1]) == subst(canon(t), e) for e in es for t in W.getter('exported_function', 'get_name')):
            bad.add('something else than the name of the function is added to the names')
        v = W.P.load(mk[-1][3], q[2], 2, None) if q[2][0] == 'p' else q[2]
        v = lin(v, 16)
        ok = False
        for e in es:
            for t in W.getter('exported_function', 'get_ordinal'):
                d = plus(narrow(subst(lin(t, 32), e), 16), v, -1, 16)
                a = atom(d)
                if a is not None and firstbase(W, a):
                    ok = True
        if not ok:
            bad.add('%s is written for the ordinal of a name' % say(v))
    if not n:
        bad.add('no names')
    return sorted(bad)


@keepctx
def firstbase(W, a):
    k = ('base', a)
    if k not in W.memo:
        W.memo[k] = extreme(W, a, EXP, 'exported_function', 'get_ordinal', True)
    return W.memo[k]


def sorted_list(what, cls, g):
    """the list is sorted by a reported value (less first) on every way to its records"""
    def f(W):
        bad = set()
        for s in [s for h, s, recs in W.ends if any(r.kind.name != 'header' and r.loop is not None for r in recs.get('functions', ()))]:
            W.ctx = s
            c = [x for x in [W.P.seen[j] for b, j in s.visit.get('log', ())] if last(x[1].name) in ('sort', 'stable_sort')]
            c = [x for x in c if len(x[2]) >= 2 and all(y[0] in ('call', 'ret') and W.islist(what, ptr(y[2][0])) for y in x[2][:2]) and [last(y[1]) for y in x[2][:2]] == ['begin', 'end']]
            if not c:
                bad.add('the list is not sorted')
                continue
            if not less(W, c[-1][1], cls, g):
                bad.add('the list is sorted in another order')
        return sorted(bad)
    return f


def less(W, f, cls, g):
    """the comparator of a call of std::sort tells whether the reported value of its first argument is less"""
    k = ('less', f.dem)
    if k not in W.memo:
        p = W.P.p
        m = re.findall(r'(pe_bliss::[\w:]+)>\(', f.dem)
        ok = False
        for c in set(m):
            for q in p.fns.values():
                if q.has_body and q.name.startswith(c + '::operator()'):
                    Q = heap.Paths(p, q, ind=True)
                    ok = bool(Q.rets) and all(lessthan(W, v, s, cls, g) for v, s in Q.rets)
        W.memo[k] = ok if m else True
    return W.memo[k]


def lessthan(W, v, s, cls, g):
    t = v
    while t is not None and t[0] == 'cast':
        t = t[4]
    if t is None or t[0] != 'cmp':
        return False
    x, y = lin(t[2], 32), lin(t[3], 32)
    if t[1] in ('ugt', 'sgt'):
        x, y = y, x
    elif t[1] not in ('ult', 'slt'):
        return False
    return any(subst(lin(w, 32), (('arg', 1), 0)) == x and subst(lin(w, 32), (('arg', 2), 0)) == y for w in W.getter(cls, g))


def padding(W):
    """a block has padding exactly when the space its entries take is no multiple of 4, and its size counts the padding it has"""
    bad = set()
    n = 0
    for h, s, recs in W.ends:
        if h is None:
            continue
        W.ctx = s
        R = recs.get('blocks', ())
        hd = [r for r in R if r.kind.name == 'block header' and r.loop == h]
        pad = [r for r in R if r.kind.name == 'padding' and r.loop == h]
        if len(hd) != 1:
            if len(hd) > 1 or pad:
                bad.add('padding outside of a block')
            continue
        n += 1
        v = lin(hd[0].val[4].what, 32)
        me = ('L', v[1], 0)
        here = [narrow(pad[0].pos, 2)] if pad else [narrow(lin(x, 32), 2) for k, cur, x in s.visit.get(('nx', h), ()) if heap.bits(x) == 32 and x[0] in ('op', 'any', 'cast')]
        A, B = set(), set()
        for c in s.conds:
            t, pol = W.leaf(c)
            a = atom(canon(t)) if t[0] in ('op', 'cast') else None
            if a is None or a[0] != 'low' or a[1] != 2:
                continue
            if narrow(plus(a[2], me, -1), 2) == ('L', frozenset(), 0):
                A.add(pol)
            if a[2] in here:
                B.add(pol)
        if v[2] not in (8, 10) or A != {v[2] == 10}:
            bad.add('the size of a block does not follow from the number of its entries')
        if (A | B if not B else B) != {bool(pad)}:
            bad.add('padding is %swritten where it is %sneeded' % (('', 'not ') if pad else ('not ', '')))
    if not n:
        bad.add('no blocks')
    return sorted(bad)


def returned(W):
    """the address of the directory that is returned is that of its first record"""
    bad = set()
    for v, s in W.P.rets:
        W.ctx = s
        d = parts(v)
        a = call(lin(d[0], 32), 'rva_from_section_offset') if d else None
        if a is None or a[-2] != W.section or a[-1] not in W.dirpos(W):
            bad.add('the address of the directory is not that of its first record')
    return sorted(bad) if W.P.rets else ['never returns']


def sorter(f):
    """comparison functions of a call of std::sort"""
    return set(re.findall(r'(pe_bliss::[\w:]+)>\(', f.dem))


def value(t, env):
    """a term under truths about reported flags; None when it is not determined"""
    k = t[0]
    if k == 'c':
        return t[1]
    for g, x in env:
        if k in ('call', 'ret') and last(t[1]) == g[1] and len(t[2]) == 1 and ptr(t[2][0]) == g[0]:
            return x
        if k == 'ld' and canon(t) == g[2]:
            return x
    if k == 'cast' and t[1] in ('zext', 'trunc'):
        return value(t[4], env)
    if k == 'cmp' and t[1] in ('eq', 'ne'):
        x, y = value(t[2], env), value(t[3], env)
        return None if x is None or y is None else int((x == y) == (t[1] == 'eq'))
    if k == 'op' and t[1] in ('and', 'or', 'xor'):
        x, y = value(t[3], env), value(t[4], env)
        if t[1] == 'and' and 0 in (x, y):
            return 0
        if x is None or y is None:
            return None
        return x & y if t[1] == 'and' else x | y if t[1] == 'or' else x ^ y
    return None


def entry_order(W):
    """entries with names come first, in the order of their names; the others follow in the order of their numbers"""
    p = W.P.p
    bad = set()
    calls = set()
    for s in [s for h, s, recs in W.ends if any(r.loop is not None for r in recs.get('entries', ()))]:
        W.ctx = s
        c = [x for x in [W.P.seen[j] for b, j in s.visit.get('log', ())] if last(x[1].name) in ('sort', 'stable_sort')]
        c = [x for x in c if len(x[2]) >= 2 and all(y[0] in ('call', 'ret') and W.islist(ENTRIES, ptr(y[2][0])) for y in x[2][:2]) and [last(y[1]) for y in x[2][:2]] == ['begin', 'end']]
        if not c:
            return ['the entries are not sorted']
        calls.add(c[-1][1].dem)
    flag = [W.leaf(t)[0] for t in W.getter(RE, 'is_named')]
    for d in calls:
        for q in p.fns.values():
            if not q.has_body or not any(q.name.startswith(c + '::operator()') for c in set(re.findall(r'(pe_bliss::[\w:]+)>\(', d))):
                continue
            Q = heap.Paths(p, q, ind=True)
            for x in (0, 1):
                for y in (0, 1):
                    env = [((('p', ('arg', k), 0), 'is_named', subst(canon(t), (('arg', k), 0))), v) for k, v in ((1, x), (2, y)) for t in flag]
                    for v, s in Q.rets:
                        if any(value(c, env) == 0 for c in s.conds):
                            continue
                        if x != y:
                            if value(v, env) != x:
                                bad.add('entries with names do not come first')
                        elif x:
                            names = [subst(canon(t), (('arg', k), 0)) for k in (1, 2) for t in W.getter(RE, 'get_name')]
                            if v[0] not in ('call', 'ret') or not last(v[1]).startswith('operator<') or [ptr(z) for z in v[2]] != names:
                                bad.add('entries with names are not in the order of their names')
                        elif not lessthan(W, v, s, RE, 'get_id'):
                            bad.add('entries are not in the order of their numbers')
            if not Q.rets:
                bad.add('the order of the entries could not be followed')
    return sorted(bad)


def entry_counts(W):
    """the header holds the numbers of entries with and without a name"""
    bad = set()
    n = 0
    one = lambda W, d: [None] if const(d) == 1 else []
    for h, s, recs in W.ends:
        W.ctx = s
        for r in recs.get('header', ()):
            n += 1
            for o, named in ((12, True), (14, False)):
                k = ('counts', r.val[o].what)
                if k not in W.memo:
                    W.memo[k] = total(W, atom(lin(r.val[o].what, 16)), ENTRIES, one, (RE, 'is_named', named))
                if not W.memo[k]:
                    bad.add('the number of entries %s a name is not counted' % ('with' if named else 'without'))
    return sorted(bad) if n else ['no header']


def entry_below(W):
    """the directory of each entry that has one is written once"""
    bad = set()
    for h, s, recs in W.ends:
        es = [r for r in recs.get('entries', ()) if r.loop == h and h is not None]
        ds = [r for r in recs.get('directories below', ()) if r.loop == h and h is not None]
        for st, kd in (('directories below', 'directory'), ('data', 'data')):
            want = [r.E for r in es if r.kind.name.endswith(' ' + kd)]
            have = [r.E for r in recs.get(st, ()) if r.loop == h and h is not None and (kd == 'data' and r.kind.name != 'below' or kd != 'data')]
            if len(want) != len(have):
                bad.add('%s of an entry written %d times' % (kd, len(have)))
    return sorted(bad)


EXTRA = {
    'rebuild_resource_directory': [('number of entries', entry_counts), ('order of the entries', entry_order), ('what entries refer to', entry_below)],
    'rebuild_exports': [('names by ordinal', by_name), ('functions in the order of their ordinals', sorted_list(EXP, 'exported_function', 'get_ordinal')), ('address of the directory', returned)],
    'rebuild_bound_imports': [('address of the directory', returned)],
    'rebuild_relocations': [('padding of the blocks', padding), ('address of the directory', returned)],
}
EXTRA['rebuild_tls_base'] = [('raw data', asked('raw data', 'tls_info', 'get_raw_data_start_rva', 5, 1)), ('callbacks', asked('callbacks', 'tls_info', 'get_callbacks_rva', 4, 1)),
                             ('list of callbacks', collected(('obj', 1, 'get_tls_callbacks'), va_elem, 0)), ('address of the directory', returned)]
EXTRA['rebuild_image_config_base'] = [('order of the exception handlers', sorted_copy), ('tables', tables), ('address of the directory', returned)]
# flags that are given fixed values, in turn
VARIANTS = {'rebuild_tls_base': [{4: 0, 5: 0}, {4: 1, 5: 0}, {4: 0, 5: 1}], 'rebuild_image_config_base': [{4: a, 5: b} for a in (0, 1) for b in (0, 1)]}
EXTRA['rebuild_imports_base'] = [('tables by settings', written), ('address of the directory', returned)]
# objects given that nothing changes
OWN = {'rebuild_imports_base': (3,), 'rebuild_resource_directory': (3, 4, 5)}
DIRPOS = {'rebuild_imports_base': lambda W: [W.startof[id(W.ctx)].get('descriptors')], 'rebuild_tls_base': lambda W: argpos(3, W.w)(W), 'rebuild_image_config_base': lambda W: argpos(3, W.w)(W), 'rebuild_exports': argpos(4), 'rebuild_bound_imports': argpos(3), 'rebuild_relocations': argpos(3)}
WATCH = ('operator++', 'operator++(int)', 'operator--', 'operator+=', 'insert', 'emplace', 'to_ucs2', 'rebuild_resource_directory', 'make_pair', 'pair', 'sort', 'stable_sort', 'push_back', 'emplace_back', 'resize')


def build(job):
    """the sequences of a function on its paths"""
    k, mode, dem, bind = job
    pat, section, fn = SPECS[k]
    heap.MAXPATHS = 2000000
    p = ir.load(mode)
    rd = ir.load('rd')
    f = [f for f in p.repo_fns() if f.dem == dem][0]
    VERSIONED.clear()
    MEMO.clear()
    P = heap.Paths(p, f, own=[('arg', 0)] + [('arg', x) for x in OWN.get(pat, ())], ind=True, bind=dict((a, C(b, 1)) for a, b in bind.items()), watch=WATCH,
                   sink=lambda d: any(x in repr(d[1]) for x in ('get_raw_data', 'section_data_from')))
    views = {}

    def view(c):
        if c not in views:
            views[c] = View(rd, 'pe_bliss::' + c, c) if 'pe_bliss::' + c in rd.types else None
        return views[c]
    W = Writer(P, f, ('p', ('arg', section), 0), view)
    W.memo = {}
    W.bind = bind
    W.objcls = {1: 'tls_info'}
    W.w = 8 if '<64>' in f.short else 4
    W.dirpos = DIRPOS.get(pat)
    W.section = ('p', ('arg', section), 0)
    W.streams = fn(W)
    W.count = W.run(W.streams)
    return W


def analyse(job):
    pat = SPECS[job[0]][0]
    W = build(job)
    streams, n = W.streams, W.count
    kinds = [(st.name, kd.name, sorted(str(v) for z, v in kd.parts.values())) for st in streams for kd in st.kinds]
    each = []
    for what, names, skip, name in EACH.get(pat, ()):
        hs, bad = W.each(what, names, skip)
        each.append((name, len(hs), sorted(set(bad))))
    for name, fn in EXTRA.get(pat, ()):
        each.append((name, 1, [(None, m) for m in fn(W)]))
    return job[2], W.P.complete, n, len(W.P.writes), kinds, W.got, W.bad, each


def work():
    p = ir.load('mod')
    ir.load('rd')
    r = []
    for k in range(len(SPECS)):
        fs = [f for f in p.repo_fns() if f.has_body and re.match(re.escape(SPECS[k][0]) + r'(<|$|\()', f.short)]
        for f in sorted(fs, key=lambda f: f.dem):
            for b in VARIANTS.get(SPECS[k][0], [{}]):
                r.append((k, 'mod', f.dem, b))
    return p, r


def guarded(job):
    try:
        return job, analyse(job), None
    except Broken as e:
        return job, None, str(e)


class Calls(bounds.Hooks):
    def __init__(self):
        self.seen = []

    def call(self, e, st, i, fn, a):
        if e.final and fn is not None:
            self.seen.append((i, fn, a, st.copy()))


def resource_base(ck, p, fnloc):
    """the offsets inside the resource directory count from where the root directory is written, at every level"""
    for nm, root in (('rebuild_resources', True), ('rebuild_resource_directory', False)):
        for f in [f for f in p.repo_fns() if f.has_body and f.short == nm]:
            h = Calls()
            _, e = bounds.run(p, f, hooks=h)
            cs = [x for x in h.seen if x[1].short == 'rebuild_resource_directory']
            bad = set()
            for i, fn, a, st in cs:
                base = a[-1]
                q = e.fn.params
                z = len(e.fn.args) - len(q)
                if a[0] != mkptr(('arg', z)) or a[1] != mkptr(('arg', z + (2 if root else 1))):
                    bad.add('another section or image is written')
                if root:
                    if a[3][0] != 'p' or not e.prove(st, 'eq', e.read(st, a[3][1], a[3][2], 4), base):
                        bad.add('the root directory is not written at the place from which offsets are counted')
                    for j, g, b, s in h.seen:
                        if g.name.endswith('pe_base::rva_from_section_offset') and not e.prove(s, 'eq', b[-1], base):
                            bad.add('the address given is not that of the root directory')
                else:
                    own = [t for t in range(len(q)) if q[t] == 'unsigned int']
                    if len(own) != 1 or base[0] == 'p' or not e.prove(st, 'eq', base, ('arg', 32, own[0], f.mangled)):
                        bad.add('the directory below counts its offsets from another place')
                    if any(a[k] != mkptr(('arg', k)) for k in (3, 4, 5)):
                        bad.add('the directory below does not continue at the positions reached')
            ck.ob(not bad and bool(cs), '%s: offsets count from the root directory' % f.short, fnloc(f), '; '.join(sorted(bad)) if cs else 'the directory is not written')


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18', 'tools/irx', 'pv/heap.py', 'pv/wstream.py']
    ck.explanation = ('Every write of every rebuilding function into the section or the image is assigned to a record of the format at a position that follows from the position of the record before it '
                      '(by induction over the iterations of the loops), and every part of a record is compared with what the objects given report. Each element of each list has exactly one record.')
    p, jobs = work()
    res = {}
    with multiprocessing.get_context('fork').Pool(min(8, max(1, len(jobs)))) as pool:
        for job, r, err in pool.imap_unordered(guarded, jobs, 1):
            res[repr(job)] = (r, err)
    byfn = {}
    for j in jobs:
        byfn.setdefault((j[0], j[2]), []).append(j)
    n = 0
    for (k, dem), js in byfn.items():
        f = [f for f in p.repo_fns() if f.dem == dem][0]
        at = fnloc(f)
        rs = []
        for j in js:
            r, err = res[repr(j)]
            if err:
                raise Broken(err)
            rs.append((j, r))
        n += 1
        ok = all(r[1] for j, r in rs)
        ck.ob(ok, f.short + ': analysable', at, 'the paths of the function could not be followed')
        if not ok:
            continue
        got = set().union(*[r[5] for j, r in rs])
        bad = {}
        for j, r in rs:
            for key, v in r[6].items():
                bad.setdefault(key, v)
        for st, kd, vals in sorted(set((a, b, tuple(c)) for j, r in rs for a, b, c in r[4])):
            key = '%s: %s' % (st, kd)
            b = bad.pop(key, None)
            ck.ob(b is None, '%s: %s: contents' % (f.short, kd), b[0] if b else at, b[1] if b else '')
            ck.ob((st, kd) in got, '%s: %s: written' % (f.short, kd), at, 'no %s is written' % kd)
        for st in sorted(set(a for j, r in rs for a, b, c in r[4])):
            b = bad.pop(st, None)
            ck.ob(b is None, '%s: sequence of %s' % (f.short, st), b[0] if b else at, b[1] if b else '')
        b = bad.pop('stray', None)
        ck.ob(b is None, '%s: nothing else is written' % f.short, b[0] if b else at, b[1] if b else '')
        for key, b in sorted(bad.items()):
            ck.ob(False, '%s: %s' % (f.short, key), b[0], b[1])
        for name in sorted(set(x[0] for j, r in rs for x in r[7])):
            probs = [m for j, r in rs for x in r[7] if x[0] == name for l, m in x[2]]
            hs = sum(x[1] for j, r in rs for x in r[7] if x[0] == name)
            ck.ob(not probs and hs > 0, '%s: each %s' % (f.short, name), at, '; '.join(sorted(set(probs))[:3]) if probs else 'no loop writes them')
        ck.count('path ends', sum(r[2] for j, r in rs))
        ck.count('writes', sum(r[3] for j, r in rs))
    resource_base(ck, p, fnloc)
    ck.need(n, len(SPECS), 'rebuilding functions')
