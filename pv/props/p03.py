"""P03: the layout an image is written with is the one its headers describe."""
import multiprocessing, re
from .. import ir, heap
from ..build import Broken
from ..wstream import *
from .p12 import where as fnloc
from .p29 import WATCH, atom, ATOM
from .p04 import Sizes, M32

POS, TOLD = (('loc', 'ghost'), 0), (('loc', 'ghost'), 8)
PE = ('p', ('arg', 0), 0)


def ghost(stream):
    """counts the bytes given to the stream"""
    def hook(P, i, n, a, s):
        l = n.split('::')[-1]
        if l in ('write', 'put', 'tellp') and a and P.aspt(a[0])[1:] == stream:
            if l == 'tellp':
                s.mem[TOLD] = s.mem[POS]
                return ('any', ('tell', i.id), 64)
            k = C(1, 32)
            if l == 'write':
                k = a[2]
                k = C(k[1], 32) if k[0] == 'c' else k[4] if k[0] == 'cast' and k[3] == 32 else ('cast', 'trunc', 64, 32, k)
            s.mem[POS] = (4, heap.mkop('add', 32, s.mem[POS][1], k))
            return a[0]
        if i.callee and i.callee.startswith('_ZNKSt4fpos') and 'cv' in i.callee:
            return ('cast', 'zext', 32, 64, s.mem[TOLD][1])
        return None
    return hook


class Counted(Sizes):
    """loops that count to a bound run as often as the bound is away, if it is ahead"""

    def over(self, a, s):
        r = Sizes.over(self, a, s)
        if r is None and a[0] == 'iter':
            d = self.exact(a[1], s)
            if d is not None:
                return d
            d = self.distance(a[1], s)
            if d is not None:
                return ATOM(('max0', d))
        return r

    def exact(self, h, s):
        """loops that run until two values are equal: the distance between them"""
        e = s.visit.get(('end', h))
        if e is None or len(e[0]) != 1:
            return None
        t, pol = self.W.leaf(e[0][0])
        if t[0] == 'cmp':
            if (t[1], pol) not in (('eq', True), ('ne', False)):
                return None
            d = plus(lin(t[2], 32), lin(t[3], 32), -1)
        elif pol or t[0] not in ('op', 'any', 'cast'):
            return None
        else:
            d = lin(t, 32)
        it = ATOM(('iter', h))
        if (('iter', h), M32) in d[1]:
            d = plus(d, it)
        elif (('iter', h), 1) in d[1]:
            d = plus(num(0), plus(d, it, -1), -1)
        else:
            return None
        return d if "('iter', %r)" % h not in repr(d) and "('rec', %r" % h not in repr(d) else None

    def distance(self, h, s):
        e = s.visit.get(('end', h))
        if e is None or len(e[0]) != 1:
            return None
        d = self.ahead(e[0][0], False)
        if d is None:
            return None
        it = ATOM(('iter', h))
        return plus(d, it) if (('iter', h), M32) in d[1] else None

    def ahead(self, c, holds):
        """b - a when the condition says a < b (holds) or not"""
        t, pol = self.W.leaf(c)
        if t[0] != 'cmp':
            return None
        a, b = lin(t[2], 32), lin(t[3], 32)
        op = t[1]
        if op in ('uge', 'ule', 'sge', 'sle'):
            op = {'uge': 'ult', 'ule': 'ugt', 'sge': 'slt', 'sle': 'sgt'}[op]
            pol = not pol
        if op in ('ugt', 'sgt'):
            op, a, b = 'ult', b, a
        if op not in ('ult', 'slt') or pol != holds:
            return None
        return plus(b, a, -1)

    def resolve(self, t, s):
        """differences that are known to be ahead or not on a path"""
        yes, no = [], []
        for c in s.conds:
            for r, h in ((yes, True), (no, False)):
                d = self.ahead(c, h)
                if d is not None:
                    r.append(d)
        for rnd in range(8):
            for a, c in t[1]:
                if isinstance(a, tuple) and a[:1] == ('max0',):
                    x = a[1] if a[1] in yes or self.quick(a[1]) else num(0) if a[1] in no or self.quick(plus(num(0), a[1], -1)) else None
                    if x is not None:
                        t = plus(('L', t[1] - frozenset([(a, c)]), t[2]), ('L', frozenset((y, z * c & M32) for y, z in x[1]), x[2] * c & M32))
                        break
            else:
                break
        return t


def build(p, f, stream, extra=(), own=()):
    heap.MAXPATHS = 400000
    P = heap.Paths(p, f, own=[('arg', 0)] + [('arg', x) for x in own], ind=True, watch=tuple(WATCH) + tuple(extra), ghost=ghost(stream))
    W = Writer(P, f, ('p', ('arg', 99), 0), lambda c: None)
    W.memo = {}
    W.objcls = {}
    W.streams = []
    W.w = 8
    return W, Counted(W)


# ---- what the format says
STUB, LIST = ('p', ('arg', 0), 64), ('p', ('arg', 0), 96)
BOUND = 11        # directory of bound imports
BOC = 60 - 16     # the field that lies at the offset of e_lfanew in a stripped image, from the start of the headers


def getter(name, *a):
    return ATOM(('call', 'pe_bliss::pe_base::' + name, (PE,) + a))


def times(t, k):
    return ('L', frozenset((a, c * k & M32) for a, c in t[1] if c * k & M32), t[2] * k & M32)


def ntsize():
    return plus(plus(getter('get_sizeof_nt_header'), times(getter('get_number_of_rvas_and_sizes'), 8)), -128)


def optsize():
    return plus(plus(getter('get_sizeof_opt_headers'), times(getter('get_number_of_rvas_and_sizes'), 8)), -128)


def truths(W, s, want):
    """truth values a path has found for a term"""
    W.ctx = s
    r = set()
    for c in s.conds:
        t, pol = W.leaf(c)
        if want(t):
            r.add(pol)
    return r


def flag(W, s, n):
    r = truths(W, s, lambda t: canon(t) == ('a', n))
    return r.pop() if len(r) == 1 else None


def has_bound(t):
    return t[0] in ('call', 'ret') and last(t[1]) == 'has_bound_import' and ptr(t[2][0]) == PE


def known_bound(W, s):
    """has_bound_import on a path; 'both': no such path"""
    r = truths(W, s, has_bound)
    if (True in r) and (truths(W, s, lambda t: atom(lin(t, 32)) == atom(dir_rva()) if t[0] in ('call', 'ret', 'any') else False) == {False}):
        return 'both'
    return 'both' if len(r) > 1 else r.pop() if r else None


def dir_rva():
    return getter('get_directory_rva', ('L', frozenset(), BOUND))


def dir_size():
    return getter('get_directory_size', ('L', frozenset(), BOUND))


def stub_empty(W, s):
    def want(t):
        return t[0] in ('call', 'ret') and last(t[1]) in ('size', 'length', 'empty') and len(t[2]) == 1 and t[2][0][0] == 'p' and ptr(t[2][0]) == STUB
    W.ctx = s
    for c in s.conds:
        t, pol = W.leaf(c)
        if want(t) and pol == (last(t[1]) == 'empty'):
            return True
    return False


def headers_at(W, s, strip):
    """where the headers may be said to begin on a path"""
    W.ctx = s
    n = ATOM(('n', STUB))
    L = [plus(x, 16 if strip else 64) for x in W.aligned(n, 4)]
    if stub_empty(W, s):
        L.append(num(16 if strip else 64))
    return L


def lin32(t):
    x = lin(t, 32)
    return ('L', frozenset((a, c) for a, c in x[1]), x[2])


def same(t, forms):
    return any(t == x for x in forms)


def running(W, st):
    """loops that run at the time of a call"""
    b = st.visit.get('cur')
    return set(h for h, L in W.loops.items() if b in L or b == h)


class Report(object):
    def __init__(self, W):
        self.W, self.r = W, {}

    def __call__(self, key, ok, msg='', loc=None):
        m, b = self.r.setdefault(key, (0, None))
        self.r[key] = (m + 1, b or (None if ok else (loc, msg)))


# ---- the function that writes
def writer(p, f):
    W, S = build(p, f, (('arg', 1), 0), ('write', 'put', 'tellp', 'rebuild_pe'))
    P = W.P
    note = Report(W)
    if not P.complete:
        return False, note.r, P.n
    impossible = {}

    def dead(s):
        if id(s) not in impossible:
            impossible[id(s)] = known_bound(W, s) == 'both' or any(len(truths(W, s, lambda t: canon(t) == ('a', n))) > 1 for n in (2, 3, 4))
        return impossible[id(s)]

    def position(st, opened):
        W.ctx = st
        return S.resolve(S.expand(lin32(st.mem[POS][1]), st, opened), st)

    def layout_call(s):
        r = [j for b, j in s.visit.get('log', ()) if last(P.seen[j][1].name) == 'rebuild_pe']
        return r

    def passed(s):
        """(the local the layout is computed into, truth of the flag to save bound imports, or the flag)"""
        r = layout_call(s)
        if len(r) != 1:
            return None
        i, fn, a, st = P.seen[r[0]]
        W.ctx = st
        return a

    def bound_at(s):
        """what is to lie between section headers and data on a path: size of bound imports, or None if not known"""
        a = passed(s)
        if a is None:
            return None
        v = a[4]
        if v[0] == 'c':
            on = bool(v[1])
        else:
            on = flag(W, s, 4)
        if on is False:
            return num(0)
        b = known_bound(W, s)
        if b is False:
            return num(0)
        return dir_size() if on and b is True else None

    loops = {}

    def list_loop(loc, s):
        """(loop, None) when loc is an element of the section list in a loop that takes them all"""
        W.ctx = s
        c, h = W.container(loc)
        if c != LIST or h is None:
            return None
        if h not in loops:
            loops[h] = W.taken(h, lambda W, x: x == LIST)
            W.ctx = s
        return h if not loops[h] else None

    def table_end(s, strip):
        return [plus(plus(x, ntsize()), times(ATOM(('n', LIST)), 40)) for x in headers_at(W, s, strip)]

    data = set()
    wrote = {}
    for j, (i, fn, a, st) in enumerate(P.seen):
        n = last(fn.name)
        loc = P.f.instr_loc(i) if hasattr(P.f, 'instr_loc') else None
        if dead(st) or n not in ('write', 'put', 'rebuild_pe'):
            continue
        W.ctx = st
        strip = flag(W, st, 2)
        if n == 'rebuild_pe':
            # the same flags, but for bound imports that are not in the headers
            note('the layout is computed for the flags given', ptr(a[0]) == PE and canon(a[2]) == ('a', 2) and canon(a[3]) == ('a', 3) and
                 (canon(a[4]) == ('a', 4) or a[4] == C(0, heap.bits(a[4])) and (in_section(W, st) or flag(W, st, 4) is False)), 'the layout is computed for other flags than those given')
            note('nothing is written before the layout is known', st.mem[POS][1] == C(0, 32), 'something is written before the layout is computed')
            continue
        if ptr(a[0]) != ('p', ('arg', 1), 0):
            continue
        if n == 'put':
            note('padding is zero', a[1][0] == 'c' and a[1][1] == 0, 'bytes that are not zero are written as padding')
            continue
        opened = running(W, st)
        pos = position(st, opened)
        k = lin32(a[2])
        src = ptr(a[1])
        r = passed(st)
        what, want, size, extra = None, [], [], True
        q = src[1][1] if src[0] == 'p' and src[1][0] == 'ref' and src[2] == 0 and isinstance(src[1][1], tuple) else None
        if r is not None and src == ptr(r[1]):
            what, want, size = 'DOS header', [num(0)], [num(16 if strip else 64)]
            extra = strip is not None
        elif q and q[0] == 'call' and last(q[1]) == 'get_nt_headers_ptr' and q[2][0] == PE:
            what, want, size = 'headers', headers_at(W, st, strip), [ntsize()]
            extra = r is not None
        elif q and q[0] == 'call' and last(q[1]) in ('data', 'c_str') and q[2][0] == STUB:
            what, want, size = 'stub', [num(16 if strip else 64)], [ATOM(('n', STUB))]
            extra = r is not None
        elif q and q[0] == 'call' and last(q[1]) == 'section_data_from_rva' and q[2][0] == PE:
            what, want, size = 'bound imports', table_end(st, strip), [dir_size()]
            v = q[2][1]
            # the address before the layout has changed it
            raw = a[1][2][1] if a[1][0] in ('call', 'ret') else None
            before = P.seen[layout_call(st)[0]][3] if r is not None else None
            extra = r is not None and v == dir_rva() and bound_at(st) == dir_size() and raw is not None and any(x == raw for x in before.env.values())
        else:
            h = list_loop((src[1], 0), st) if src[0] == 'p' and src[2] == 0 else None
            if h is not None:
                what, size = 'section headers', [num(40)]
                want = [plus(plus(x, ntsize()), ('L', frozenset([(('iter', h), 40)]), 0)) for x in headers_at(W, st, strip)]
                extra = r is not None
            elif q and q[0] == 'call' and last(q[1]) in ('data', 'c_str'):
                y = q[2][0]
                y = y[1][1] if y[0] == 'p' and y[1][0] == 'ref' else None
                if y and y[0] == 'call' and last(y[1]) == 'get_raw_data' and y[2][0][0] == 'p':
                    e = (y[2][0][1], y[2][0][2])
                    h = list_loop(e, st)
                    if h is not None:
                        what = 'section data'
                        cur = [lin32(cur) for kk, cur, ent in st.visit.get(('in', h), ()) if kk == ('m', POS)]
                        F = ATOM(('ld', e[0], 20, 4))
                        want = [S.resolve(plus(c, ATOM(('max0', plus(F, c, -1)))), st) for c in cur]
                        full, have = ATOM(('ld', e[0], 16, 4)), ATOM(('n', q[2][0]))
                        size = [full, have]
                        data.add((h, e))
                        extra = r is not None and shorter(W, S, st, k, full, have)
        if what is None:
            note('nothing but headers and section data is written', False, 'something that is no part of the image is written')
            continue
        wrote[what] = True
        note(what + ': position', same(pos, want), '%s written at %s' % (what, say(pos)))
        note(what + ': size', same(k, size) and extra, 'the %s bytes written for %s are not what belongs there' % (say(k), what))
    for what in ('DOS header', 'headers', 'stub', 'section headers', 'section data', 'bound imports'):
        note(what + ': written', what in wrote, what + ' never written')
    hs = set(h for h, e in data)
    note('one loop writes the data of the sections', len(hs) == 1, 'the data of the sections is written in %d loops' % len(hs))
    if len(hs) != 1:
        return True, note.r, P.n
    h, e = sorted(data, key=repr)[0]
    for s in P.backs.get(h, ()):
        if dead(s):
            continue
        d = None
        W.ctx = s
        for kk, cur, nxt in s.visit.get(('nx', h), ()):
            if kk == ('m', POS):
                c = lin32(cur)
                d = S.resolve(S.expand(plus(lin32(nxt), c, -1), s, S.parents(h) | {h}), s)
                F = ATOM(('ld', e[0], 20, 4))
                x = S.resolve(plus(ATOM(('max0', plus(F, c, -1))), ATOM(('ld', e[0], 16, 4))), s)
        ok = d is not None and d == x or nodata(W, S, s, e, d)
        note('section data: as long as the header of the section says', ok, 'a section takes up %s bytes of the file from the end of the data before it' % (say(d) if d else '?'))
    for v, s in P.rets:
        if dead(s):
            continue
        W.ctx = s
        strip = flag(W, s, 2)
        b = bound_at(s)
        ent = None
        for kk, cur, en in s.visit.get(('in', h), ()):
            if kk == ('m', POS):
                ent, c = S.resolve(S.expand(lin32(en), s, set()), s), atom(lin32(cur))
                end = lin32(s.mem[POS][1])
        ok = ent is not None and b is not None and same(ent, [plus(x, b) for x in table_end(s, strip)])
        note('section data follows the headers', ok, 'the data of the sections begins at %s' % (say(ent) if ent else '?'))
        note('nothing follows the data of the sections', ent is not None and same(end, [lin32(ATOMT(c))]) if ent else False, 'something is written after the data of the sections')
    return True, note.r, P.n


def ATOMT(a):
    return ('any', a, 32)


def in_section(W, s):
    """a path has found bound imports to lie in a section"""
    W.ctx = s
    H = getter('get_size_of_headers')
    for c in s.conds:
        t, pol = W.leaf(c)
        if t[0] == 'cmp' and t[1] in ('ugt', 'ult', 'uge', 'ule'):
            a, b, op = lin(t[2], 32), lin(t[3], 32), t[1]
            if op in ('ult', 'uge') and a == H or op in ('ugt', 'ule') and b == H:
                pass
            elif op in ('ugt', 'ule') and a == H or op in ('ult', 'uge') and b == H:
                pass
            else:
                continue
            x, y = (a, b) if b == H else (b, a)
            up = op in ('ugt', 'uge') if b == H else op in ('ult', 'ule')
            if x == dir_rva() and pol == up:
                return True
    return False


def shorter(W, S, s, k, full, have):
    """not more than there is of the data: the smaller one on the path"""
    W.ctx = s
    for c in s.conds:
        for holds in (True, False):
            t, pol = W.leaf(c)
            d = S.ahead(c, holds)
            if d is None:
                continue
            # holds: d > 0; not: d <= 0
            if k == have and (d == plus(full, have, -1) and holds or d == plus(have, full, -1) and not holds):
                return True
            if k == full and (d == plus(have, full, -1) and holds or d == plus(full, have, -1) and not holds):
                return True
    return k == have and full == have


def nodata(W, S, s, e, d):
    """a section without data in the file"""
    return d == num(0) and truths(W, s, lambda t: lin(t, 32) == ATOM(('ld', e[0], 16, 4)) if t[0] in ('ld', 'any', 'cast') else False) == {False}


# ---- the function that computes the layout
SETS = ('set_base_of_code', 'strip_stub_overlay', 'set_directory_rva', 'set_size_of_headers', 'update_number_of_sections', 'update_image_size', 'set_size_of_optional_header', 'get_aligned_raw_size')


def low32(t):
    """the low 32 bits of a term"""
    r = num(t[2])
    for a, c in t[1]:
        x = ATOM(a)
        if isinstance(a, tuple) and a[:1] == ('cast',) and a[1] in ('trunc', 'zext', 'sext') and min(a[2:4]) >= 32 and a[4][0] == 'L':
            x = low32(a[4])
        r = plus(r, times(x, c))
    return r


def up_forms(W, s, x, X, FA):
    """x is X rounded up to a multiple of FA"""
    W.ctx = s

    def mask(a):
        # X & (FA - 1), X % FA
        if a[:2] == ('op', 'and'):
            u, v = low32(a[3]), low32(a[4])
            return (u, v) if v == plus(FA, -1) else (v, u) if u == plus(FA, -1) else None
        if a[:2] == ('op', 'urem') and low32(a[4]) == FA:
            return low32(a[3]), None
        return None

    def down(a):
        if a[:2] == ('op', 'and'):
            u, v = low32(a[3]), low32(a[4])
            return u if minus(v) else v if minus(u) else None
        return None

    def minus(t):
        """-FA, which is ~(FA - 1)"""
        b = atom(t)
        return t == times(FA, -1) or isinstance(b, tuple) and b[:2] == ('op', 'xor') and sorted([low32(b[3]), low32(b[4])], key=repr) == sorted([plus(FA, -1), num(-1)], key=repr)

    def isdown(t, Y):
        """t is Y rounded down"""
        if atom(t) and isinstance(atom(t), tuple) and down(atom(t)) == Y:
            return True
        d = atom(plus(Y, t, -1))
        m = mask(d) if isinstance(d, tuple) and d else None
        return m is not None and m[0] == Y
    if isdown(x, plus(plus(X, FA), -1)):
        return True
    rem = set()
    for c in s.conds:
        t, pol = W.leaf(c)
        y = canon(t) if t[0] in ('op', 'cast', 'any') else None
        if y is not None and y[0] == 'L':
            y = atom(y)
        while isinstance(y, tuple) and y[:1] == ('cast',):
            y = atom(y[4]) if y[4][0] == 'L' else y[4]
        m = mask(y) if isinstance(y, tuple) and y else None
        if m and m[0] == X:
            rem.add(pol)
    if x == X:
        return rem == {False}
    return isdown(plus(x, FA, -1), X)


def layout(p, f):
    W, S = build(p, f, (('arg', 99), 0), SETS, (1,))
    P = W.P
    note = Report(W)
    if not P.complete:
        return False, note.r, P.n
    FA = getter('get_file_alignment')
    n0 = num(0)
    lists = {}

    def all_sections(s):
        r = []
        for g in W.loops:
            if ('in', g) in s.visit:
                if g not in lists:
                    lists[g] = not W.taken(g, lambda W, x: x == LIST) and any(W.element(s, g, lambda W, x: x == LIST) is not None for x in [0])
                W.ctx = s
                if lists[g]:
                    r.append(g)
        return r
    # the loop that sets the pointers
    points = {}
    for h, L in P.backs.items():
        for s in L:
            W.ctx = s
            for k, x in s.mem.items():
                if k[0][0] == 'ref' and k[1] == 20 and W.container((where(k[0]), 0)) == (LIST, h):
                    points.setdefault(h, []).append(s)
                    break
    hs = [h for h in points if not W.taken(h, lambda W, x: x == LIST)]
    note('every section is given its place in the file', len(hs) == 1, 'sections are given their places in the file in %d loops over all sections' % len(hs))
    if len(hs) != 1:
        return True, note.r, P.n
    h = hs[0]
    run = set()
    for s in P.backs[h]:
        W.ctx = s
        vals, raw = set(), None
        for k, x in s.mem.items():
            if k[0][0] == 'ref' and W.container((where(k[0]), 0)) == (LIST, h):
                e = where(k[0])
                v = canon(x[1])
                v = lin(x[1], 32)
                if v != ATOM(('ld', e, k[1], x[0])):
                    if k[1] == 20:
                        vals.add((e, v))
                    else:
                        note('sections keep their sizes and addresses', False, 'another field of the section is changed with the place of its data')
        e = W_elem(W, s, h)
        t = truths(W, s, lambda t: t[0] in ('ld', 'any', 'cast') and e is not None and lin(t, 32) == ATOM(('ld', e, 16, 4)))
        if e is None or len(t) != 1:
            # one value for both
            t = {None}
        raw = t.pop()
        v = [y for x, y in vals]
        if raw is False:
            note('sections without data have no place', v == [n0], 'a section without data is said to have data at %s' % (say(v[0]) if len(v) == 1 else '?'))
        else:
            a = atom(v[0]) if len(v) == 1 else None
            ok = a is not None and a[:2] == ('rec', h)
            note('sections are placed one after the other', ok, 'data of a section placed at %s' % (say(v[0]) if len(v) == 1 else '?'))
            if ok:
                run.add(a)
    note('sections are placed at one running position', len(run) == 1, 'the place of data is not one running position')
    if len(run) != 1:
        return True, note.r, P.n
    a = run.pop()
    for s in P.backs[h]:
        W.ctx = s
        d = S.step(a, s)
        e = W_elem(W, s, h)
        t = truths(W, s, lambda t: t[0] in ('ld', 'any', 'cast') and e is not None and lin(t, 32) == ATOM(('ld', e, 16, 4)))
        A = ATOM(('call', 'pe_bliss::section::get_aligned_raw_size', (('p', e, 0), FA))) if e is not None else None
        R = ATOM(('ld', e, 16, 4)) if e is not None else None
        ok = d is not None and (d == A or t == {False} and d == n0 or t == {True} and (up_forms(W, s, d, R, FA)))
        note('the data of the next section begins where the aligned data ends', ok, 'the next section is placed %s further' % (say(d) if d else '?'))
    for v, s in P.rets:
        if known_bound(W, s) == 'both' or any(len(truths(W, s, lambda t: canon(t) == ('a', n))) > 1 for n in (2, 3, 4)):
            continue
        W.ctx = s
        strip, change, save = flag(W, s, 2), flag(W, s, 3), flag(W, s, 4)
        log = [(last(P.seen[j][1].name), P.seen[j], j) for b, j in s.visit.get('log', ())]
        log = [x for x in log if x[1][2] and (x[1][2][0][0] != 'p' or ptr(x[1][2][0]) == PE)]
        by = {}
        for n, ev, j in log:
            by.setdefault(n, []).append((ev, j))
        forms = headers_at(W, s, strip)
        # where the headers are
        if strip is None:
            note('place of the headers', False, 'the headers are placed without looking at the flag')
            continue
        if strip:
            ev = by.get('set_base_of_code', [])
            st = by.get('strip_stub_overlay', [])
            note('place of the headers in a stripped image', len(ev) == 1 and ev[0][0][2][1] == C(16, heap.bits(ev[0][0][2][1])), 'the field that overlaps the offset of the headers is not set to 16')
            note('a stripped image has no stub', len(st) == 1, 'the stub is kept')
            forms = forms + [num(16)] if st else forms
        else:
            x = lin(P.load(s, ('p', ('arg', 1), 60), 4, None), 32)
            note('place of the headers', same(x, forms), 'the DOS header says the headers are at %s' % say(x))
            note('an image that is not stripped keeps its stub and fields', not by.get('set_base_of_code') and not by.get('strip_stub_overlay'), 'the image is stripped without being asked to')
        ok = True
        for k in range(64):
            if k // 4 != 15:
                x = P.load(s, ('p', ('arg', 1), k), 1, None)
                ok = ok and x[0] == 'ld' and x[1] == ('arg', 0) and x[2] == k and x[3] == 1
        note('the DOS header is kept', ok, 'a field of the DOS header is changed')
        tab = [plus(plus(x, ntsize()), times(ATOM(('n', LIST)), 40)) for x in forms]
        b = known_bound(W, s)
        ev = by.get('set_directory_rva', [])
        if save is False or b is False:
            note('bound imports are not moved without being asked to', not ev, 'bound imports are moved')
            X = tab
        elif save is None or b is None:
            note('bound imports are placed after the section headers', False, 'bound imports are placed without looking whether they are to be')
            continue
        else:
            ok = len(ev) == 1 and lin(ev[0][0][2][1], 32) == num(BOUND) and same(lin(ev[0][0][2][2], 32), tab)
            note('bound imports are placed after the section headers', ok, 'the directory of bound imports is said to be at %s' % (say(lin(ev[0][0][2][2], 32)) if len(ev) == 1 else '?'))
            X = [plus(x, dir_size()) for x in tab]
        E = entry(a, s)
        ok = E is not None and any(up_forms(W, s, E, x, FA) for x in X)
        note('section data begins at the aligned end of the headers', ok, 'the first section is placed at %s' % (say(E) if E else '?'))
        ev = by.get('set_size_of_headers', [])
        if change is None:
            note('size of headers', False, 'the size of headers is set or kept whatever is asked for')
        elif change is False:
            note('the size of headers is kept without being asked to change it', not ev, 'the size of headers is changed')
        else:
            x = lin(ev[0][0][2][1], 32) if len(ev) == 1 else None
            note('size of headers', x is not None and (x == E or any(up_forms(W, s, x, y, FA) for y in X)), 'the size of headers is set to %s' % (say(x) if x else '?'))
            if x is not None:
                note('headers end before the first section in memory', fits(W, S, s, x), 'headers may be longer than the address of the first section')
        o = [x for x in by.get('set_size_of_optional_header', [])]
        x = lin(o[0][0][2][1], 16) if len(o) == 1 else None
        note('size of the optional header', x is not None and x == narrow(optsize(), 16), 'the size of the optional header is %s' % (say(x) if x else '?'))
        note('number of sections', len(by.get('update_number_of_sections', ())) >= 1, 'the number of sections is not updated')
        u = by.get('update_image_size', [])
        note('size of image', len(u) >= 1 and (not ev or ev[0][1] < u[-1][1]), 'the size of the image is not updated, or before the size of headers is known')
    return True, note.r, P.n


def entry(a, s):
    """what a carried value is when its loop begins"""
    for k, cur, ent in s.visit.get(('in', a[1]), ()):
        if cur[0] in ('op', 'any', 'cast', 'ld') and heap.bits(cur) in (32, 64) and atom(lin(cur, 32)) == a:
            return lin(ent, 32)
    return None


def W_elem(W, s, h):
    """the element of the section list in an iteration of h"""
    W.ctx = s
    for c in s.conds[s.visit[('at', h)][0]:] if ('at', h) in s.visit else ():
        for t in refs(c):
            if W.container((t, 0)) == (LIST, h):
                return t
    for k in s.mem:
        if k[0][0] == 'ref' and W.container((where(k[0]), 0)) == (LIST, h):
            return where(k[0])
    return None


def refs(t):
    if isinstance(t, tuple):
        if t[:1] == ('ref',) and len(t) == 2:
            yield where(t)
        for x in t:
            if isinstance(x, tuple):
                for y in refs(x):
                    yield y


def fits(W, S, s, x):
    """no section, or the first one is not before x"""
    W.ctx = s
    for c in s.conds:
        t, pol = W.leaf(c)
        if t[0] in ('call', 'ret') and last(t[1]) == 'empty' and ptr(t[2][0]) == LIST and pol:
            return True
        if t[0] in ('call', 'ret') and last(t[1]) in ('size',) and ptr(t[2][0]) == LIST and not pol:
            return True
        for holds in (True, False):
            d = S.ahead(c, holds)
            if d is None or holds:
                continue
            # x - first address <= 0
            y = plus(x, d, -1)
            b = atom(y)
            if isinstance(b, tuple) and b[:1] == ('ld',) and b[2] == 12 and first(b[1]):
                return True
    return False


def first(e):
    if e[0] != 'ref' or e[1][0] != 'call':
        return False
    return last(e[1][1]) in ('front', 'operator*', 'operator->', 'operator[]', 'at', 'begin', 'cbegin')


# ---- small functions the layout relies on
SIZES = {('get_sizeof_nt_header', 32): 248, ('get_sizeof_nt_header', 64): 264, ('get_sizeof_opt_headers', 32): 224, ('get_sizeof_opt_headers', 64): 240}
AUX = ('set_size_of_image', 'set_number_of_sections', 'clear', 'resize', 'erase', 'assign')


def small(p):
    """[(function, obligation, holds, message)]"""
    out = []

    def run(f):
        W, S = build(p, f, (('arg', 99), 0), AUX)
        return W, S, W.P

    def calls(W, s, n):
        r = []
        for b, j in s.visit.get('log', ()):
            i, fn, a, st = W.P.seen[j]
            if last(fn.name) == n:
                r.append(a)
        return r
    for f in sorted((f for f in p.repo_fns() if f.has_body), key=lambda f: f.dem):
        m = re.search(r'::(\w+)\([\w ]*\)( const)?$', f.dem)
        n = m.group(1) if m else ''
        if n in ('get_sizeof_nt_header', 'get_sizeof_opt_headers') and 'image_nt_headers' in f.dem:
            W, S, P = run(f)
            w = 32 if 'image_nt_headers32' in f.dem else 64
            k = SIZES[(n, w)]
            out.append((f, 'size', P.complete and P.rets and all(v is not None and lin(v, 32) == num(k) for v, s in P.rets), 'the size of the headers is not %d' % k))
        elif n == 'get_aligned_raw_size' and f.dem.startswith('pe_bliss::section::'):
            W, S, P = run(f)
            ok = P.complete and bool(P.rets)
            R, A = ATOM(('ld', ('arg', 0), 16, 4)), ATOM(('a', 1))
            for v, s in P.rets:
                W.ctx = s
                zero = truths(W, s, lambda t: t[0] in ('ld', 'any', 'cast') and lin(t, 32) == R) == {False}
                x = lin(v, 32)
                ok = ok and (x == num(0) and zero or x == R and zero or up_forms(W, s, x, R, A))
            out.append((f, 'rounds up', ok, 'the size of raw data is not rounded up to the alignment'))
        elif n == 'strip_stub_overlay' and f.dem.startswith('pe_bliss::pe_base::'):
            W, S, P = run(f)
            ok = P.complete and bool(P.rets)
            for v, s in P.rets:
                c = [a for x in ('clear', 'erase') for a in calls(W, s, x) if len(a) == 1 or x == 'clear'] + [a for x in ('resize',) for a in calls(W, s, x) if a[1][0] == 'c' and a[1][1] == 0]
                ok = ok and any(ptr(a[0]) == STUB for a in c)
            out.append((f, 'empties the stub', ok, 'the stub is not emptied'))
        elif n == 'update_number_of_sections' and f.dem.startswith('pe_bliss::pe_base::'):
            W, S, P = run(f)
            ok = P.complete and bool(P.rets)
            for v, s in P.rets:
                c = [e[3] for e in s.events if e[0] == 'call' and (e[2] is None or last(e[2].name) == 'set_number_of_sections') and len(e[3]) == 2]
                ok = ok and any(c1[1][0] != 'p' and lin(c1[1], 16) == narrow(ATOM(('n', LIST)), 16) for c1 in c)
            out.append((f, 'counts the sections', ok, 'the number of sections set is not that of the list'))
        elif n == 'update_image_size' and f.dem.startswith('pe_bliss::pe_base::'):
            W, S, P = run(f)
            ok = P.complete and bool(P.rets)
            for v, s in P.rets:
                W.ctx = s
                c = calls(W, s, 'set_size_of_image')
                e = truths(W, s, lambda t: t[0] in ('call', 'ret') and last(t[1]) == 'empty' and ptr(t[2][0]) == LIST)
                k = truths(W, s, lambda t: t[0] in ('call', 'ret') and last(t[1]) == 'size' and ptr(t[2][0]) == LIST)
                empty = True in e or False in k
                x = lin(c[0][1], 32) if len(c) == 1 else None
                ok = ok and x is not None and (x == getter('get_size_of_headers') if empty else image_end(W, x))
            out.append((f, 'ends where the last section does', ok, 'the size of the image is not where the last section ends'))
    return out


def image_end(W, x):
    """address of the last section plus its aligned size in memory"""
    if x[2] or len(x[1]) != 2 or any(c != 1 for a, c in x[1]):
        return False
    va = [a for a, c in x[1] if a[:1] == ('ld',) and a[2:] == (12, 4)]
    sz = [a for a, c in x[1] if a[:1] == ('call',) and last(a[1]) == 'get_aligned_virtual_size']
    if len(va) != 1 or len(sz) != 1:
        return False
    e = va[0][1]
    return lastone(e) and sz[0][2][0] == ('p', e, 0) and sz[0][2][1] == getter('get_section_alignment')


def lastone(e):
    if e[0] != 'ref' or e[1][0] != 'call':
        return False
    n, a = last(e[1][1]), e[1][2]
    return n == 'back' and a[0] == LIST or n in ('operator*', 'operator->') and 'reverse_iterator' in e[1][1]


def work():
    p = ir.load('mod')
    fs = [f for f in p.repo_fns() if f.has_body and re.match(r'rebuild_pe(\(|$)', f.short)]
    return p, fs


def guarded(job):
    kind, dem = job
    try:
        p, fs = work()
        if kind == 'small':
            return job, [(f.dem, k, bool(ok), m) for f, k, ok, m in small(p)], None
        f = [f for f in fs if f.dem == dem][0]
        return job, (writer if kind == 'write' else layout)(p, f), None
    except Broken as e:
        return job, None, str(e)


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18', 'tools/irx', 'pv/heap.py', 'pv/wstream.py']
    ck.explanation = ('On every path of the function that writes an image, the number of bytes given to the stream before each write is a sum over headers, stub and sections; it is compared with the place the headers give '
                      'to what is written, and the size with what belongs there. On every path of the function that computes the layout, the places and sizes put into the headers are compared with the same sums. '
                      'By induction over the list of sections, data placed at aligned running positions is never before the position reached, since aligned sizes are not less than sizes.')
    p, fs = work()
    w = [f for f in fs if 'ostream' in f.dem]
    l = [f for f in fs if 'image_dos_header' in f.dem]
    if len(w) != 1 or len(l) != 1:
        raise Broken('functions that write an image not found')
    jobs = [('write', w[0].dem), ('layout', l[0].dem), ('small', None)]
    n = 0
    with multiprocessing.get_context('fork').Pool(3) as pool:
        for (kind, dem), r, err in pool.imap(guarded, jobs, 1):
            if err:
                raise Broken(err)
            if kind == 'small':
                for d, k, ok, m in r:
                    f = [f for f in p.repo_fns() if f.dem == d][0]
                    ck.count('small functions')
                    ck.ob(ok, '%s: %s' % (name(f), k), fnloc(f), m)
                    n += 1
                continue
            f = [f for f in fs if f.dem == dem][0]
            complete, notes, k = r
            at = fnloc(f)
            ck.count('path steps', k)
            ck.ob(complete, f.short + ': analysable', at, 'the paths of the function could not be followed')
            if not complete:
                continue
            for key, (m, b) in sorted(notes.items()):
                ck.count('comparisons', m)
                ck.ob(b is None, '%s: %s' % ('written image' if kind == 'write' else 'layout', key), (b[0] if b else None) or at, b[1] if b else '')
    ck.need(n, 8, 'small functions')


def name(f):
    m = re.search(r'::(\w+)\([\w ]*\)( const)?$', f.dem)
    return m.group(1) + (' (PE32)' if 'headers32' in f.dem else ' (PE32+)' if 'headers64' in f.dem else '')
