"""Loading takes every part of the image from the place in the file that its headers give."""
from .. import post, lin, stream
from ..absint import C, mkptr, tbits, subst
from ..build import Broken
from ..models import sver, slen
from ..stream import kind
from ._load import prog, the, acc, util, PB
from .p05 import alts, find, on_sections

W = 'src/pe_lib/pe_base.cpp (pe_base::read_pe)'


class Ops(stream.Ops):
    def __init__(self, k):
        stream.Ops.__init__(self, k)
        self.all = {}
        self.rets = []
        self.stores = {}

    def stored(self, e, st, i, base, off, sz, v):
        if e.final and base == ('arg', 0) and not off[1]:
            self.stores.setdefault(off[0], []).append((i, st.copy(), v))

    def call(self, e, st, i, fn, a):
        stream.Ops.call(self, e, st, i, fn, a)
        if e.final and fn is not None:
            self.all[(i.bb, i.idx)] = (i, fn, a, st.copy())

    def ret(self, e, st, i):
        stream.Ops.ret(self, e, st, i)
        if e.final:
            self.rets.append((i, st.copy()))


def succs(e, b):
    t = e.fn.blocks[b][-1]
    ss = [s for s in e.cfg.succ[b] if (b, s) in e.out]
    if t.op == 'invoke':
        ss = [s for s in ss if s == t.get('nd')]
    return ss


def same(q, a, b):
    """two numbers are known to be equal"""
    if a == b or q.eq(a, b):
        return True
    e = q.e
    c = e.ctx(q.st.node)
    d = lin.add(e.lz(c, a), e.lz(c, b), 1, -1)
    return c.entails(d) and c.entails(lin.scale(d, -1))


def same32(q, a, b):
    """a 64-bit number is the zero or sign extension of the 32-bit one"""
    e = q.e
    if tbits(a) == 32 and tbits(b) == 32:
        return same(q, a, b)
    if tbits(b) == 32:
        return any(same(q, a, e.mkcast(k, 32, 64, b)) for k in ('zext', 'sext')) or (strip(a) is not None and same(q, strip(a), b))
    return same(q, a, b)


def strip(t):
    if t[0] == 'cast' and t[2] in ('zext', 'sext') and t[3] == 32:
        return t[4]
    return None


class Pos(object):
    """where the stream stands before every operation: the set of operations that may have been the last to move it"""

    def __init__(self, e, h):
        self.e, self.h = e, h
        self.at = {}
        inn = {0: frozenset([('start', None)])}
        todo = [0]
        while todo:
            b = todo.pop()
            cur = inn[b]
            dead = False
            for i in e.fn.blocks[b]:
                op = h.ops.get((b, i.idx))
                if op is not None:
                    self.at[(b, i.idx)] = cur
                    cur = self.step((b, i.idx), op, cur)
                if stream.is_throw(i):
                    dead = True
            if dead:
                continue
            for s in succs(e, b):
                n = inn.get(s, frozenset()) | cur
                if n != inn.get(s):
                    inn[s] = n
                    todo.append(s)

    def step(self, at, op, cur):
        i, fn, a, st = op
        n = kind(fn)
        if n in stream.STATUS or n in ('tellg', 'get_file_size', 'clear', 'setstate'):
            return cur
        if n == 'read':
            return frozenset([('cont', at)])
        if n == 'seekg':
            if len(a) == 2 or (len(a) == 3 and (tbits(a[2]) == 64 or a[2] == C(0, 32))):
                return frozenset([('seek', at)])
        return frozenset([('other', at)])

    def before(self, at):
        """last operations before the one at `at`; a seek to where the stream was told to stand counts as never having left"""
        r, todo, seen = set(), list(self.at.get(at, ())), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == 'seek':
                t = target(self.h.ops[x[1]])
                tl = [k for k, o in self.h.ops.items() if kind(o[1]) == 'tellg' and k in self.h.res and stream.same_tell(self.h.res[k][0], peel(t))]
                if tl:
                    todo += [y for k in tl for y in self.at.get(k, ())]
                    continue
            r.add(x)
        return r


def peel(t):
    while t[0] == 'cast':
        t = t[4]
    return t


def target(op):
    i, fn, a, st = op
    return a[1]


def through(e, p, b, st):
    """the state of edge p -> b together with what is known at the later state st; None when they exclude each other"""
    s = e.out[(p, b)].copy()
    for i in e.fn.blocks[b]:
        if i.op != 'phi':
            break
        d = dict((x, y) for x, y in i.get('in'))
        t = e.env.get(i.id)
        if p in d and isinstance(t, tuple) and t[0] == 'phi':
            s.assume(('eq', t, e.term(d[p])))
    have = s.node.fset()
    for f in st.node.facts():
        if f not in have:
            s.assume(f)
    return None if e.impossible(s) else s


def leaves(e, t, st, depth=0, stop=()):
    """(value, state) pairs: the values a joined term may have, each with the state of the edge it comes from"""
    r = []
    if t in stop:
        return [(t, st)]
    if depth < 12 and t[0] == 'phi' and len(t) == 4:
        b, pid = t[2], t[3]
        i = e.fn.defs.get(pid)
        if i is not None and i.op == 'phi':
            d = dict((x, y) for x, y in i.get('in'))
            loop = e.cfg.loops.get(b, ())
            if loop:
                back = [v for p in e.cfg.pred[b] if p in loop and (p, b) in e.out for v, _ in leaves(e, e.term(d[p]), e.out[(p, b)], depth + 1, stop + (t,))]
                if any(v != t for v in back):
                    return [(t, st)]
            for p in e.cfg.pred[b]:
                if (p, b) in e.out and p in d and p not in loop:
                    if loop:
                        s = st.copy()
                        have = s.node.fset()
                        for f in e.out[(p, b)].node.facts():
                            if f not in have:
                                s.assume(f)
                        s.assume(('eq', t, e.term(d[p])))
                    else:
                        s = through(e, p, b, st)
                    if s is not None and not e.impossible(s):
                        r += leaves(e, e.term(d[p]), s, depth + 1, stop)
            return r
    if depth < 12 and t[0] == 'mphi' and len(t) == 5 and t[2] not in e.cfg.loops:
        b = t[2]
        ok = True
        for p in e.cfg.pred[b]:
            if (p, b) in e.out:
                s0 = e.out[(p, b)]
                c = s0.mem.get(t[3], {}).get(t[4])
                if c is None and not (t[4][0] == 'v' and isinstance(t[4][1], int)):
                    ok = False
                    break
                s = through(e, p, b, st)
                if s is not None:
                    v = c[1] if c else e.read(s, t[3], (t[4][1], ()), t[1] // 8)
                    r += leaves(e, v, s, depth + 1, stop)
        if ok and r:
            return r
    if depth < 12 and t[0] == 'cast':
        return [(e.mkcast(t[2], t[3], t[1], v), s) for v, s in leaves(e, t[4], st, depth + 1, stop)]
    if depth < 12 and t[0] == 'sel':
        q = post.Q(e, st)
        r = []
        for v, k in ((t[3], True), (t[4], False)):
            s = q.cond(t[2], k)
            if not s.impossible():
                r += leaves(e, v, s.st, depth + 1, stop)
        return r
    return [(t, st)]


def always(e, b, s, test, depth=0):
    """the test holds at state s of an edge leaving block b, or on each edge by which b can have been entered then"""
    if test(s):
        return True
    if depth > 5 or b in e.cfg.loops:
        return False
    n = 0
    for p in e.cfg.pred[b]:
        if (p, b) in e.out:
            t = through(e, p, b, s)
            if t is not None:
                n += 1
                if not always(e, p, t, test, depth + 1):
                    return False
    return n > 0


def avoids(e, start, stop, goal, cut):
    """a place in `goal` that some path from `start` reaches without passing an instruction in `stop` or an edge that
    `cut` accepts; None when there is none"""
    todo, seen = [start], set()
    while todo:
        b, k = todo.pop()
        dead = False
        for i in e.fn.blocks[b][k:]:
            if (b, i.idx) in stop or stream.is_throw(i) or i.op in ('resume', 'unreachable'):
                dead = True
                break
            if (b, i.idx) in goal or (i.op == 'ret' and 'ret' in goal):
                return i.loc
        if dead:
            continue
        for s in succs(e, b):
            if s in seen or cut(e.out[(b, s)]):
                continue
            seen.add(s)
            todo.append((s, 0))
    return None


def after(e, at):
    i = e.fn.blocks[at[0]][at[1]]
    if i.op == 'invoke':
        return (i.get('nd'), 0)
    return (at[0], at[1] + 1)


def run(ck):
    p = prog()
    rp = the(p, 'pe_base::read_pe')
    k = stream.stream_arg(rp)
    if k is None:
        raise Broken('P07: the loader takes no stream')
    h = Ops(k)
    e, _ = post.analyse(p, rp, models=stream.smodels(p), opts={'phiguard': True}, hooks=h)
    this = mkptr(('arg', 0))
    pm = post.members(p, 'pe_base')
    M = dict((n, post.dict_or(pm, n, 'member ' + n)[0]) for n in ('dos_header_', 'rich_overlay_', 'full_headers_data_', 'sections_', 'debug_data_', 'has_overlay_'))
    sm = post.members(p, 'section')
    hdr = post.dict_or(sm, 'header_', 'section header member')[0]
    raw = post.dict_or(sm, 'raw_data_', 'section data member')[0]
    sh = post.members(p, 'image_section_header')
    F = dict((s, hdr + post.dict_or(sh, n, 'section header field ' + n)[0]) for n, s in (('Misc', 'VS'), ('VirtualAddress', 'VA'), ('SizeOfRawData', 'RAW'), ('PointerToRawData', 'PTR')))
    lfa = M['dos_header_'] + post.dict_or(post.members(p, 'image_dos_header'), 'e_lfanew', 'e_lfanew')[0]
    dd = post.members(p, 'image_debug_directory')
    D = dict((n, post.dict_or(dd, n, 'debug directory field ' + n)[0]) for n in ('PointerToRawData', 'SizeOfData', 'Type'))
    pos = Pos(e, h)
    ops = h.ops

    def lfanew(st):
        return e.read(st, ('arg', 0), (lfa, ()), 4)

    reads = dict((at, o) for at, o in ops.items() if kind(o[1]) in ('read', 'get', 'getline', 'readsome', 'ignore') and o[1].std)
    other = [o for at, o in ops.items() if kind(o[1]) == 'repo' and o[1].name.split('::')[-1] != 'get_file_size']
    for at, o in reads.items():
        if kind(o[1]) != 'read':
            raise Broken('P07: the stream is read with ' + o[1].name)
    fsz = [h.res[at][0] for at, o in ops.items() if o[1].name == 'pe_bliss::pe_utils::get_file_size' and at in h.res]

    # what each read fills
    part = {}
    for at, (i, fn, a, st) in sorted(reads.items()):
        b, o = e.asptr(a[1])
        if b[0] == 'obj' and b[1][:3] == ('call', 64, 'nt_headers_ptr'):
            part[at] = 'headers' if o == (0, ()) else 'directories'
        elif b[0] == 'str' and o == (0, ()):
            v = ('str', sver(e, st, mkptr(('arg', 0), (M['rich_overlay_'], ())), 1), 1)
            f = ('str', sver(e, st, mkptr(('arg', 0), (M['full_headers_data_'], ())), 1), 1)
            part[at] = 'stub' if b == v else 'header data' if b == f else 'data'
        elif a[2] == C(40, 64):
            part[at] = 'section header'
        else:
            part[at] = 'unknown'
    # data that goes to a section whose header was read, and the rest
    sects = [(at, e.asptr(reads[at][2][1])) for at in part if part[at] == 'section header']
    for at in part:
        if part[at] == 'data':
            i, fn, a, st = reads[at]
            for hat, (sb, so) in sects:
                if e.asptr(a[1])[0] == ('str', sver(e, st, mkptr(sb, (so[0] - hdr + raw, so[1])), 1), 1):
                    part[at] = ('section data', hat)
            if part[at] == 'data':
                part[at] = 'debug data'
    byp = {}
    for at, x in part.items():
        byp.setdefault(x if isinstance(x, str) else x[0], []).append(at)

    def ob(ok, key, at, msg):
        ck.ob(ok, key, '%s (pe_base::read_pe)' % (ops[at][0].loc if at in ops else W), msg)

    def loc(at):
        return ops[at][0].loc
    for what in ('headers', 'directories', 'stub', 'section header', 'section data', 'header data', 'debug data'):
        ck.ob(bool(byp.get(what)), '%s: read' % what, W, 'the loader never reads the %s' % what)
    ck.ob(not byp.get('unknown'), 'no other reads', W, 'the loader reads data to a place that is not a part of the image: %s' % [loc(x) for x in byp.get('unknown', ())])
    ck.need(len(reads), 5, 'stream reads')
    sizes = set()

    def epoch(st):
        return e.epoch_of(st, ('arg', 0))

    def cont(at, want, key):
        """the read continues where one of the reads `want` stopped"""
        b = pos.before(at)
        ok = bool(b) and all(x[0] == 'cont' and x[1] in want for x in b)
        ob(ok, key, at, 'the stream may stand elsewhere: it was last moved by %s' % sorted(str(loc(x[1])) if x[1] else x[0] for x in b))

    def seeks(at, pred, key, what, more=()):
        """every position the stream may have is one that `pred` accepts, or the end of a read in `more`"""
        b = pos.before(at)
        bad = []
        for x in b:
            if x[0] == 'seek':
                o = ops[x[1]]
                if not pred(post.Q(e, o[3]), target(o), o):
                    bad.append('the seek at %s' % o[0].loc)
            elif not (x[0] == 'cont' and x[1] in more) and reaches(x, at):
                bad.append('the %s at %s' % (x[0], loc(x[1]) if x[1] else 'start'))
        ob(bool(b) and not bad, key, at, 'the stream may not stand at %s: its position comes from %s' % (what, sorted(bad)))

    tells = [h.res[k][0] for k, o in ops.items() if kind(o[1]) == 'tellg' and k in h.res]
    movers = set(at for at, o in ops.items() if kind(o[1]) not in stream.STATUS + ('tellg', 'get_file_size', 'clear', 'setstate')
                 and not (kind(o[1]) == 'seekg' and any(stream.same_tell(x, peel(o[2][1])) for x in tells)))

    def reaches(x, at):
        """the operation x is followed by `at` without another one between them, on a path that agrees about the number of sections"""
        if x[1] is None:
            return True
        st = ops[at][3]
        n = acc(e, st, 'get_number_of_sections', 16, this)
        n32 = e.mkcast('zext', 16, 32, n)
        if not any(at[0] in body and counts(e, hd, at, n32) for hd, body in e.cfg.loops.items()):
            return True
        return avoids(e, after(e, x[1]), movers - set([at]), set([at]), lambda s: zero(e, s, n)) is not None

    # 1. image headers
    hreads = byp.get('headers', [])
    for at in hreads:
        i, fn, a, st = ops[at]
        q = post.Q(e, st)
        ob(norm(a[2]) == diff(norm(acc(e, st, 'get_sizeof_nt_header', 32, this)), {1: 128}),
           'headers: size', at, 'not exactly the image headers without their directories are read')
        seeks(at, lambda q, t, o: same32(q, t, lfanew(o[3])), 'headers: place', 'the offset that the DOS header gives')
    E = None
    for at in hreads:
        if at in h.res:
            E = epoch(h.res[at][1])
    nr = e.models[PB + 'get_number_of_rvas_and_sizes']

    def nrvas(st):
        r = set([nr(e, st, None, None, [this])])
        for f in st.node.facts():
            find(f, lambda t: t[0] in ('mphi', 'ld') and len(t) > 4 and (t[3:5] == (('arg', 0), ('g', 'nrvas')) or (t[2:4] == (('arg', 0), ('nrvas', ())) and t[4] == E)), r)
        return r
    # 2. directories
    for at in byp.get('directories', []):
        i, fn, a, st = ops[at]
        q = post.Q(e, st)
        b, o = e.asptr(a[1])
        cur = [x for x in nrvas(st) if x == nr(e, st, None, None, [this])]
        ob(any(same(q, a[2], e.mkop('mul', 64, e.mkcast('zext', 32, 64, x), C(8, 64))) or same(q, a[2], e.mkcast('zext', 32, 64, e.mkop('mul', 32, x, C(8, 32)))) for x in cur),
           'directories: size', at, 'not exactly the declared number of directories is read')
        hs = e.mkcast('zext', 32, 64, acc(e, st, 'get_sizeof_nt_header', 32, this))
        ob(same(q, e.offterm(o) or C(0, 64), e.mkop('sub', 64, hs, C(128, 64))) or same(q, e.offterm(o) or C(0, 64), e.mkcast('zext', 32, 64, e.mkop('sub', 32, strip(hs), C(128, 32)))),
           'directories: destination', at, 'directories are not stored behind the headers that precede them')
        cont(at, hreads, 'directories: place')
    dirs = set(byp.get('directories', []))
    for hat in hreads:
        w = avoids(e, after(e, hat), dirs, {'ret'} | set(x for x in reads if x not in dirs),
                   lambda s: any(post.Q(e, s).eq(x, C(0, 32)) for x in nrvas(s)))
        ob(w is None, 'directories: read when there are any', hat, 'with a non-zero number of directories %s is reached without reading them' % w)
    for at, (i, fn, a, st) in sorted(h.all.items()):
        if fn.name == PB + 'set_number_of_rvas_and_sizes':
            q = post.Q(e, st)
            cur = nr(e, st, None, None, [this])
            ck.ob(a[1] == C(16, 32) and q.ult(C(16, 32), cur), 'number of directories: limited to 16', '%s (pe_base::read_pe)' % i.loc, 'a number of directories that fits is changed')
    # 3. DOS stub
    for at in byp.get('stub', []):
        i, fn, a, st = ops[at]
        q = post.Q(e, st)
        want = e.mkcast('sext', 32, 64, lfanew(st))
        n = e.mkop('sub', 64, want, C(64, 64))
        v = e.asptr(a[1])[0][1]
        n32 = e.mkcast('zext', 32, 64, e.mkop('sub', 32, lfanew(st), C(64, 32)))
        okn = same(q, a[2], n) or same(q, a[2], n32)
        ob(okn, 'stub: size', at, 'not all bytes between the DOS header and the image headers are read')
        ob(same(q, slen(v), a[2]), 'stub: stored whole', at, 'the stub data does not have the size of what is read')
        seeks(at, lambda q, t, o: same(q, t, C(64, 64)), 'stub: place', 'the end of the DOS header')
    stub = set(byp.get('stub', []))

    def small(s):
        q = post.Q(e, s)
        l = lfanew(s)
        return q.ule(l, C(64, 32))
    w = avoids(e, (0, 0), stub, {'ret'}, small)
    ck.ob(w is None, 'stub: read when there is one', W, 'with headers behind offset 64 %s is reached without reading the bytes before them' % w)

    # 4. section headers
    def acc16(st, n):
        return acc(e, st, n, 16, this, E)
    sreads = byp.get('section header', [])
    keeps = dict((at, o) for at, o in h.all.items() if o[1].name.startswith('std::') and o[1].name.split('::')[-1] in ('push_back', 'emplace_back', 'insert') and on_sections(e, o[2], p))
    for at in sreads:
        i, fn, a, st = ops[at]
        q = post.Q(e, st)
        sb, so = e.asptr(a[1])
        ob((so[0] == hdr and not so[1]) and sb[0] == 'alloca' or sb[0] == 'obj', 'section header: destination', at, 'a section header is not stored as the header of its section')

        def begin(s):
            so, lf = acc(e, s, 'get_size_of_optional_header', 16, this), lfanew(s)
            return [clean({so: 1, lf: 1, 1: 24})]

        def first(q, t, o):
            return norm(t) in begin(o[3]) or steps(e, at, t, begin, 40)
        seeks(at, first, 'section header: place', 'the end of the optional header, or the end of the preceding section header', more=sreads)
        # one section for every iteration
        others = {'ret'} | set(x for x in reads if part[x] in ('section header', 'header data'))
        w = avoids(e, after(e, at), set(keeps), others, lambda s: False)
        ob(w is None, 'section header: section kept', at, 'a section whose header was read may be dropped: %s' % w)
        n = e.mkcast('zext', 16, 32, acc(e, st, 'get_number_of_sections', 16, this))
        cnt = [hd for hd, body in e.cfg.loops.items() if at[0] in body and counts(e, hd, at, n)]
        ob(bool(cnt), 'section header: number', at, 'it is not established that as many section headers are read as the image declares')
    for at, (i, fn, a, st) in sorted(keeps.items()):
        w = avoids(e, after(e, at), set(sreads), set(keeps), lambda s: False)
        ck.ob(w is None, 'section kept once', '%s (pe_base::read_pe)' % i.loc, 'a section is kept twice: %s' % w)
        sb, so = e.asptr(a[-1])
        ck.ob(any(x == sb for _, (x, _) in sects), 'section kept: the one that was read', '%s (pe_base::read_pe)' % i.loc, 'the section that is kept is not the one that was read')
        ck.ob(fn.name.split('::')[-1] != 'insert', 'section kept: order', '%s (pe_base::read_pe)' % i.loc, 'sections are not kept in the order of their headers')

    # 5. section data
    fl, ctors = flags(p, rp)
    flag = fl.get('mem')
    for at in byp.get('section data', []):
        i, fn, a, st = ops[at]
        q = post.Q(e, st)
        hat = part[at][1]
        sb, so = e.asptr(ops[hat][2][1])
        r0 = h.res[hat][1]

        def fld(s, k):
            return e.read(s, sb, (so[0] - hdr + F[k], so[1]), 4)
        v = e.asptr(a[1])[0][1]
        ob(same32(q, a[2], fld(st, 'RAW')), 'section data: size', at, 'not exactly the raw size of the section is read')
        ob(same(q, slen(v), a[2]), 'section data: stored whole', at, 'the data of the section does not have the size of what is read')

        def place(q, t, o):
            s = o[3]
            SA, FA = acc(e, s, 'get_section_alignment', 32, this), acc(e, s, 'get_file_alignment', 32, this)
            t = strip(t) or t
            ok = 0
            for val in (True, False):
                if flag is None:
                    return False
                u = q.under([('true' if val else 'false', flag)])
                if u.impossible():
                    u = None
                want = [(fld(s, 'VA'), SA)] if val else [(fld(s, 'PTR'), FA)]
                if u is None:
                    continue
                if not aligned_down(u, t, want[0][0], want[0][1]):
                    return False
                ok += 1
            return ok > 0
        seeks(at, place, 'section data: place', 'the aligned file offset of the section (or its aligned address for a memory dump)')
        # skipped only for sections without raw data
        w = avoids(e, after(e, hat), set(byp['section data']), set(keeps), lambda s: post.Q(e, s).eq(fld(r0, 'RAW'), C(0, 32)) or post.Q(e, s).eq(fld(s, 'RAW'), C(0, 32)))
        ob(w is None, 'section data: read when there is any', at, 'a section with raw data may be kept without them: %s' % w)
        # the raw size the loader keeps
        FA, SA = acc(e, st, 'get_file_alignment', 32, this), acc(e, st, 'get_section_alignment', 32, this)
        R0, VS = fld(r0, 'RAW'), fld(r0, 'VS')
        for val, s in leaves(e, fld(st, 'RAW'), st):
            u = post.Q(e, s)
            if same(u, val, R0):
                t = True
            else:
                t = same(u, val, VS) and any(u.ult(util('align_up', 32, VS, SA), x) for x in (util('align_up', 32, R0, FA),))
            ob(t, 'section data: declared size', at, 'the raw size of a section is changed although its data fit in its virtual size')

    # 6. header data
    hd_checks(ck, e, h, ops, byp.get('header data', []), this, fsz, F, hdr, ob, seeks, E, p, M)
    rest = {'ret'}
    for at, o in keeps.items():
        w = avoids(e, after(e, at), set(byp.get('header data', [])), rest, lambda s: False)
        ck.ob(w is None, 'header data: always read', '%s (pe_base::read_pe)' % o[0].loc, 'the loader may return without reading the header data: %s' % w)

    # 7. debug data
    ins = [o for at, o in h.all.items() if o[1].name.startswith('std::') and o[1].name.split('::')[-1] in ('insert', 'emplace', 'operator[]')
           and e.asptr(o[2][0]) == (('arg', 0), (M['debug_data_'], ()))]
    for at in byp.get('debug data', []):
        i, fn, a, st = ops[at]
        q = post.Q(e, st)
        base = None
        for x in pos.before(at):
            if x[0] == 'seek':
                t = peel(target(ops[x[1]]))
                if t[0] == 'ld' and t[3][0] >= D['PointerToRawData']:
                    base = (t[2], (t[3][0] - D['PointerToRawData'], t[3][1]))
                elif t[0] == 'sym' and t[2] == 'ovl' and t[4][0] >= D['PointerToRawData']:
                    base = (t[3], (t[4][0] - D['PointerToRawData'], t[4][1]))
        if base is None:
            ob(False, 'debug data: place', at, 'the stream does not stand at the file offset of a debug directory entry')
            continue

        def dfld(s, n):
            return e.read(s, base[0], (base[1][0] + D[n], base[1][1]), 4)
        seeks(at, lambda q, t, o: same32(q, t, dfld(o[3], 'PointerToRawData')), 'debug data: place', 'the file offset of the debug directory entry')
        ob(same32(q, a[2], dfld(st, 'SizeOfData')), 'debug data: size', at, 'not exactly the size of the debug directory entry is read')
        ob(same(q, slen(e.asptr(a[1])[0][1]), a[2]), 'debug data: stored whole', at, 'the debug data does not have the size of what is read')
        ob(from_section(e, h, base, at, this), 'debug data: entry', at, 'the entries of the debug directory are not taken from the image one after the other')
        # what is kept
        goals = {'ret'} | set(k for k, o in h.all.items() if o[1].name == PB + 'section_data_from_rva')
        ikeys = set()
        for k, o in h.all.items():
            if any(o is x for x in ins):
                ikeys.add(k)
                ck.ob(kept(e, h, o, dfld, base, e.asptr(a[1])[0][1]), 'debug data: key', '%s (pe_base::read_pe)' % o[0].loc, 'debug data are not kept under their file offset')
        w = avoids(e, after(e, at), ikeys, goals, lambda s: False)
        ob(w is None, 'debug data: always kept', at, 'debug data that were read may be dropped: %s' % w)
        ent = [k for k, o in h.all.items() if o[1].name == PB + 'section_data_from_rva']
        for ty, name in ((2, 'CodeView'), (4, 'misc'), (1, 'COFF')):
            T = lambda s: e.read(s, base[0], (base[1][0] + D['Type'], base[1][1]), 4)

            def cut(s):
                u = post.Q(e, s)
                return (u.under([('eq', T(s), C(ty, 32))]).impossible() or u.eq(dfld(s, 'SizeOfData'), C(0, 32)) or u.eq(dfld(s, 'PointerToRawData'), C(0, 32))
                        or any(f[0] == 'ule' and dirend(f[1]) for f in s.node.fset()))
            for k in ent:
                w = avoids(e, after(e, k), set(byp['debug data']), goals, cut)
                ob(w is None, 'debug data: %s entries are read' % name, at, 'an entry of this type that has data may be passed over: %s' % w)
    ck.ob(bool(ins), 'debug data: kept', W, 'debug data are never kept')

    # 8. overlay
    overlay(ck, e, h, p, this, M, fsz, sreads, sects, keeps, F, hdr, E)
    dos(ck, p)
    ctor(ck, p, rp, fl, ctors)
    kindof(ck, p)
    ck.level = 'proof'
    ck.trusted = ['clang 18 front end', 'pv/absint.py, pv/lin.py, pv/stream.py', 'header accessors return the fields they name (P10)', 'alignment helpers compute what they name (P26)',
                  'the stream size helper restores the position', 'std::istream: read continues where the previous operation stopped, seekg moves to the given offset']
    ck.explanation = ('For every stream read of the loader the set of operations that may have moved the stream last is computed over the control-flow graph; each must be a seek whose '
                      'target equals the header field that places this part, or the read that precedes it in the file. Destination and size are compared with the declared ones as terms, '
                      'and no path may skip a part unless its declared size is known to be zero there.')


def norm(t):
    """a term as a sum of atoms modulo 2^32"""
    r = {}

    def go(t, k):
        if t[0] == 'c':
            r[1] = r.get(1, 0) + k * t[1]
        elif t[0] == 'cast' and t[2] in ('zext', 'sext', 'trunc') and t[1] >= 32 and (t[3] >= 32 or t[4][0] in ('c', 'cast')):
            go(t[4], k)
        elif t[0] == 'cast' and t[2] == 'zext' and t[1] >= 32:
            r[t[4]] = r.get(t[4], 0) + k
        elif t[0] == 'op' and t[2] == 'add':
            go(t[3], k)
            go(t[4], k)
        elif t[0] == 'op' and t[2] == 'sub':
            go(t[3], k)
            go(t[4], -k)
        elif t[0] == 'op' and t[2] == 'mul' and 'c' in (t[3][0], t[4][0]):
            x, y = (t[3], t[4]) if t[4][0] == 'c' else (t[4], t[3])
            go(x, k * y[1])
        elif t[0] == 'op' and t[2] == 'shl' and t[4][0] == 'c' and t[4][1] < 32:
            go(t[3], k << t[4][1])
        else:
            r[t] = r.get(t, 0) + k
    go(t, 1)
    return clean(r)


def clean(r):
    return dict((x, k % (1 << 32)) for x, k in r.items() if k % (1 << 32))


def diff(a, b):
    r = dict(a)
    for x, k in b.items():
        r[x] = r.get(x, 0) - k
    return clean(r)


def steps(e, at, t, first, step):
    """in some loop around `at`, t is `first` in the first iteration and grows by `step` in each one (modulo 2^32);
    first: a function of the state before the loop"""
    for hd, body in e.cfg.loops.items():
        m = e.loopsub.get(hd)
        if m is None or at[0] not in body:
            continue
        esub, bsub = m
        ent = [e.out[(b, hd)] for b in e.cfg.pred[hd] if b not in body and (b, hd) in e.out]
        if not all(norm(subst(t, esub)) in first(s) for s in ent):
            continue
        if bsub and all(diff(norm(subst(t, b)), norm(t)) == {1: step} for b in bsub):
            return True
    return False


def flags(p, rp):
    """the loader's parameter that gets the constructor's flag for images that were dumped from memory"""
    fs = [f for f in p.named('pe_base::pe_base') if any('istream' in t for t in f.params)]
    if len(fs) != 1:
        raise Broken('P07: constructor from a stream not found')
    f = fs[0]
    n = len(f.args) - len(f.params)
    b = [k + n for k, t in enumerate(f.params) if t == 'bool']
    if len(b) != 2:
        raise Broken('P07: flags of the constructor not found')
    h = post.Rec(lambda fn, i: fn.mangled == rp.mangled)
    e, _ = post.analyse(p, f, models=stream.smodels(p), hooks=h)
    r = {}
    for name, k in (('mem', b[0]), ('debug', b[1])):
        t = ('arg', 1, k, f.mangled)
        js = set()
        for i, fn, a, st in h.calls:
            js |= set(j for j, x in enumerate(a) if x == t or (x[0] == 'cast' and x[4] == t))
        if len(js) == 1:
            r[name] = ('arg', 1, js.pop(), rp.mangled)
    return r, h.calls


def aligned_down(u, t, x, al):
    for y in alts(u, t):
        if y[:3] == ('call', 32, 'pe_bliss::pe_utils::align_down') and same(u, y[3], x) and same(u, y[4], al):
            return True
    return False


def zero(e, s, n):
    """the 16-bit number n is known to be zero"""
    q = post.Q(e, s)
    if q.eq(n, C(0, 16)):
        return True
    for k in ('zext', 'sext'):
        x = e.mkcast(k, 16, 32, n)
        if q.eq(x, C(0, 32)) or e.ctx(s.node).entails(e.lz(e.ctx(s.node), x)) or ('sle', x, C(0, 32)) in s.node.fset():
            return True
    return False


def counts(e, hd, at, n):
    """the loop with header hd runs its body exactly n times and reaches `at` in each of them"""
    m = e.loopsub.get(hd)
    if m is None:
        return False
    esub, bsub = m
    body = e.cfg.loops[hd]
    ent = [e.out[(b, hd)] for b in e.cfg.pred[hd] if b not in body and (b, hd) in e.out]
    back = [e.out[(b, hd)] for b in e.cfg.pred[hd] if b in body and (b, hd) in e.out]
    st = e.hst[hd] if hasattr(e, 'hst') else None
    for t in list(esub):
        if t[0] == 'p' or tbits(t) < 8:
            continue
        v = ext(e, n, tbits(t))

        def eq(s, a, b):
            return same(post.Q(e, s), a, b)
        for up in (True, False):
            if not all(eq(s, subst(t, esub), C(0, tbits(t)) if up else v) for s in ent):
                continue
            if not all(eq(s, subst(t, bsub[k]), e.mkop('add', tbits(t), t, C(1 if up else (1 << tbits(t)) - 1, tbits(t)))) for k, s in enumerate(back)):
                continue
            # the loop ends when the counter has reached its end, and not before
            ok = 0
            for b in body:
                for s in succs(e, b):
                    if s in body or throws(e, s):
                        continue
                    q = post.Q(e, e.out[(b, s)])
                    c = e.ctx(q.st.node)
                    done = c.entails(lin.add(e.lz(c, v), e.lz(c, t), 1, -1)) if up else q.eq(t, C(0, tbits(t))) or c.entails(e.lz(c, t))
                    if not done:
                        ok = -1000
                    ok += 1
            if ok <= 0:
                continue
            if e.cfg.dominates(hd, at[0]):
                # every iteration passes the read
                if avoids_iter(e, hd, body, at):
                    continue
                return True
    return False


def ext(e, n, bits):
    if bits == tbits(n):
        return n
    return e.mkcast('zext' if bits > tbits(n) else 'trunc', tbits(n), bits, n)


def avoids_iter(e, hd, body, at):
    todo, seen = [hd], set([hd])
    while todo:
        b = todo.pop()
        if b == at[0]:
            continue
        for s in succs(e, b):
            if s == hd:
                return True
            if s in body and s not in seen:
                seen.add(s)
                todo.append(s)
    return False


def throws(e, b):
    seen = e.cfg.reachable_from(b)
    return not any(e.fn.blocks[x][-1].op == 'ret' for x in seen)


def smaller(q, v, a, b):
    """v is the smaller one of a and b"""
    for x, y in ((a, b), (b, a)):
        if same32(q, v, x) and (q.ule(x, y) or q.ult(x, y)):
            return True
    return False


def hd_checks(ck, e, h, ops, ats, this, fsz, F, hdr, ob, seeks, E, p, M):
    for at in ats:
        i, fn, a, st = ops[at]
        q = post.Q(e, st)
        ob(same(q, slen(e.asptr(a[1])[0][1]), a[2]), 'header data: stored whole', at, 'the header data does not have the size of what is read')
        seeks(at, lambda q, t, o: same(q, t, C(0, 64)), 'header data: place', 'the beginning of the file')
        SOH = acc(e, st, 'get_size_of_headers', 32, this)
        ver = sver(e, st, mkptr(('arg', 0), (M['sections_'], ())), 40)
        for m in st.mem.get(('arg', 0), {}).items():
            if m[0] == ('s', M['sections_']):
                ver = m[1][1]
        nonempty = exhausted = 0
        loops = {}
        for v, s in leaves(e, a[2], st):
            u = post.Q(e, s)
            t = strip(v) or v
            hit = [x for x in found(s) if x[2] == ver]
            if hit:
                ok = any(smaller(u, t, SOH, e.read(s, ('obj', x), (F['PTR'], ()), 4)) for x in hit)
                ob(ok, 'header data: size', at, 'the header data does not end at the declared size of headers or at the first section with data, whichever comes first')
                nonempty += 1
                for x in hit:
                    loops[x[3]] = 0
                continue
            none = u.eq(slen(ver), C(0, 64))
            if not none:
                for hd, body in e.cfg.loops.items():
                    if every(e, hd, ver, u):
                        none = True
            ob(none, 'header data: first section with data', at, 'the search for the first section with data may stop before the last section')
            ok = any(smaller(u, t, SOH, x) for f in fsz for x in (e.mkcast('trunc', 64, 32, f),))
            ob(ok, 'header data: size', at, 'the header data of an image without section data does not end at the declared size of headers or at the end of the file, whichever comes first')
            exhausted += 1
        ob(nonempty > 0 and exhausted > 0, 'header data: cases', at, 'the size of the header data does not depend on the sections')


def found(s):
    """the container elements that are known not to be empty"""
    r = []
    for f in s.node.fset():
        if f[0] in ('false', 'true') and f[1][0] == 'call' and f[1][2] == 'pe_bliss::section::empty' and f[0] == 'false':
            t = f[1][3]
            if t[1][0] == 'obj' and t[1][1][0] == 'elem' and t[2] == (0, ()):
                r.append(t[1][1])
    return r


def every(e, hd, ver, u):
    """the loop with header hd has looked at all elements and found every one of them to be empty; u: on its exit"""
    m = e.loopsub.get(hd)
    if m is None:
        return False
    esub, bsub = m
    body = e.cfg.loops[hd]
    ent = [e.out[(b, hd)] for b in e.cfg.pred[hd] if b not in body and (b, hd) in e.out]
    back = [(b, e.out[(b, hd)]) for b in e.cfg.pred[hd] if b in body and (b, hd) in e.out]
    for t in list(esub):
        if t[0] == 'p' or tbits(t) != 64:
            continue
        if not (u.eq(t, slen(ver)) or u.ule(slen(ver), t)):
            continue
        if not all(same(post.Q(e, s), subst(t, esub), C(0, 64)) for s in ent):
            continue
        ok = True
        for k, (b, s) in enumerate(back):
            el = mkptr(('obj', ('elem', 64, ver, t)))

            def test(z):
                return any(f[0] == 'true' and f[1][0] == 'call' and f[1][2] == 'pe_bliss::section::empty' and f[1][3] == el for f in z.node.fset())
            ok = ok and always(e, b, s, test) and same(post.Q(e, s), subst(t, bsub[k]), e.mkop('add', 64, t, C(1, 64)))
        if ok:
            return True
    return False


def dirend(t):
    n = set(x[2].split('::')[-1] for x in norm(t) if isinstance(x, tuple) and x[0] == 'call' and x[4:5] == (C(6, 32),))
    return n == set(['get_directory_rva', 'get_directory_size'])


def kept(e, h, o, dfld, base, ver):
    """the entry added to the map has the file offset as its key and the string version ver as its value"""
    i, fn, a, st = o
    args = list(a[1:])
    for at, (j, g, b, s) in h.all.items():
        if b and a[1:] and b[0] == a[1] and g.name.startswith('std::') and (g.name.split('::')[-1] in ('make_pair', 'pair')):
            args += [(x, s) for x in b[1:]]
    key = val = False
    for x in args:
        x, s = x if len(x) == 2 and isinstance(x[0], tuple) else (x, st)
        if x[0] != 'p':
            continue
        pb, po = e.asptr(x)
        key = key or same(post.Q(e, s), e.read(s, pb, po, 4), dfld(s, 'PointerToRawData'))
        val = val or sver(e, s, x, 1) == ver
    return key and val


def from_section(e, h, base, at, this):
    """the entry is filled from the first entry of the directory on, in steps of its size"""
    calls = [(k, i, a, st) for k, (i, fn, a, st) in h.all.items() if fn.name == PB + 'section_data_from_rva']
    to = set([base])
    for k, (i, fn, a, st) in h.all.items():
        if fn.name.startswith('llvm.memcpy') and e.asptr(a[0]) == base and a[2] == C(28, 64):
            to.add(e.asptr(a[1]))
    calls = [c for c in calls if e.asptr(c[2][0]) in to]

    def rva(s):
        return ('call', 32, PB + 'get_directory_rva', this, C(6, 32), ((e.epoch_of(s, ('arg', 0)), None),))
    first = inner = 0
    for k, i, a, st in calls:
        loop = [hd for hd, body in e.cfg.loops.items() if k[0] in body and at[0] in body]
        t = a[2]
        if norm(t) == norm(rva(st)) and not any(norm(t) != norm(subst(t, b)) for hd in loop for b in e.loopsub.get(hd, (0, []))[1]):
            first += 1
        elif steps(e, k, t, lambda s: [norm(rva(s))], 28):
            first += 1
            inner += 1
        elif steps(e, k, t, lambda s: [diff(norm(rva(s)), {1: -28})], 28):
            inner += 1
        else:
            return False
    return first > 0 and inner > 0


def overlay(ck, e, h, p, this, M, fsz, sreads, sects, keeps, F, hdr, E):
    ws = h.stores.get(M['has_overlay_'], [])
    ck.ob(bool(ws), 'overlay: set', W, 'whether there is an overlay is never recorded')
    if not ws:
        return
    good = []
    for at, (sb, so) in sects:
        for hd, body in e.cfg.loops.items():
            if at[0] not in body or hd not in e.loopsub:
                continue
            esub, bsub = e.loopsub[hd]
            ent = [e.out[(b, hd)] for b in e.cfg.pred[hd] if b not in body and (b, hd) in e.out]
            back = [e.out[(b, hd)] for b in e.cfg.pred[hd] if b in body and (b, hd) in e.out]
            r0 = h.res[at][1]
            R, P = (e.read(r0, sb, (so[0] - hdr + F[k], so[1]), 4) for k in ('RAW', 'PTR'))
            for t in esub:
                if t[0] == 'p' or tbits(t) not in (32, 64):
                    continue
                x = t
                if not all(same32(post.Q(e, s), subst(t, esub), acc(e, s, 'get_size_of_headers', 32, this)) for s in ent):
                    continue
                ok = True
                for k, s0 in enumerate(back):
                    for v, s in leaves(e, subst(t, bsub[k]), s0):
                        u = post.Q(e, s)
                        end = e.mkop('add', 32, P, R)
                        wide = ext(e, end, tbits(t))
                        if same(u, v, t):
                            ok = ok and (u.ule(wide, t) or u.eq(R, C(0, 32)))
                        else:
                            ok = ok and same(u, v, wide) and (u.ule(t, wide) or u.ult(t, wide))
                if ok:
                    good.append(x)
    # the value when all of them are done
    end = None
    rets = [i.bb for i, st in h.rets]
    for at in sorted(h.all):
        after_ = e.cfg.reachable_from(at[0])
        if any((i.bb in after_ and i.bb != at[0]) or (i.bb == at[0] and (i.idx > at[1] or at[0] in set(x for y in e.cfg.succ[at[0]] for x in e.cfg.reachable_from(y)))) for i, st, v in ws):
            continue
        if any(avoids(e, (i.bb, i.idx + 1), set([at]), {'ret'}, lambda s: False) for i, st, v in ws):
            continue
        if end is None or (e.cfg.dominates(at[0], end[0]) and (at[0] != end[0] or at[1] < end[1])):
            end = at
    if end is None:
        raise Broken('P07: no point after the decision about the overlay')
    for i, st, val in [(ws[-1][0], h.all[end][3], e.read(h.all[end][3], ('arg', 0), (M['has_overlay_'], ()), 1))]:
        w = '%s (pe_base::read_pe)' % i.loc
        ver = [c[1] for k, c in st.mem.get(('arg', 0), {}).items() if k == ('s', M['sections_'])]
        n = 0
        for v, s in leaves(e, val, st):
            u = post.Q(e, s)
            if v[0] == 'cast':
                v = v[4]
            none = any(u.eq(slen(x), C(0, 64)) for x in ver)
            if none:
                ck.ob(v[0] == 'c' and v[1] == 0, 'overlay: none without sections', w, 'an image without sections is said to have an overlay')
                continue
            n += 1
            ok = False
            for f in fsz:
                for x in good:
                    y = ext(e, x, 64)
                    c = e.mkcmp('sgt', f, y) if hasattr(e, 'mkcmp') else ('cmp', 1, 'sgt', f, y)
                    if v[0] == 'c':
                        z = u.cond(c, v[1] == 0)
                        ok = ok or z.impossible() or (('sle', f, y) if v[1] == 0 else ('slt', y, f)) in s.node.fset()
                    else:
                        ok = ok or v in (c, ('cmp', 1, 'slt', y, f))
            ck.ob(ok, 'overlay: beyond all data', w, 'an overlay is not reported exactly when the file is longer than its headers and the data of all sections')
        ck.ob(n > 0, 'overlay: decided', w, 'no image can have an overlay')


def dos(ck, p):
    fs = [f for f in p.repo_fns() if f.name == PB + 'read_dos_header' and f.has_body]
    inner = [f for f in fs if any('image_dos_header' in t for t in f.params)]
    if len(inner) != 1:
        raise Broken('P07: DOS header reader not found')
    f = inner[0]
    k = stream.stream_arg(f)
    h = Ops(k)
    e, _ = post.analyse(p, f, models=stream.smodels(p), hooks=h)
    out = [j + len(f.args) - len(f.params) for j, t in enumerate(f.params) if 'image_dos_header' in t][0]
    pos = Pos(e, h)
    rd = [(at, o) for at, o in h.ops.items() if kind(o[1]) not in stream.STATUS + ('tellg',)]
    for at, (i, fn, a, st) in rd:
        w = '%s (pe_base::read_dos_header)' % i.loc
        ck.ob(kind(fn) == 'read' and e.asptr(a[1]) == (('arg', out), (0, ())) and a[2] == C(64, 64), 'DOS header: whole', w, 'not exactly the 64 bytes of the DOS header are read into it')
        ck.ob(pos.before(at) == set([('start', None)]), 'DOS header: place', w, 'the DOS header is not read from where the stream stands')
    ck.need(len(rd), 1, 'reads of the DOS header')
    for f in fs:
        if f is inner[0]:
            continue
        h = post.Rec(lambda fn, i: fn.mangled == inner[0].mangled)
        e, _ = post.analyse(p, f, models=stream.smodels(p), hooks=h)
        do = post.dict_or(post.members(p, 'pe_base'), 'dos_header_', 'DOS header member')[0]
        ck.ob(len(h.calls) == 1 and all(e.asptr(a[out]) == (('arg', 0), (do, ())) for i, fn, a, st in h.calls), 'DOS header: destination', '%s (pe_base::read_dos_header)' % f.where,
              'the DOS header of the image is not the one that is read')


def ctor(ck, p, rp, fl, calls):
    w = 'src/pe_lib/pe_base.cpp (pe_base::pe_base)'
    ck.ob('mem' in fl and 'debug' in fl and fl['mem'] != fl['debug'], 'flags reach the loader', w, 'the constructor does not pass its flags on to the loader')
    f = [f for f in p.named('pe_base::pe_base') if any('istream' in t for t in f.params)][0]
    h = Ops(stream.stream_arg(f))
    e, _ = post.analyse(p, f, models=stream.smodels(p), hooks=h)
    seq = [at for at, o in h.ops.items() if o[1].name == PB + 'read_dos_header']
    main = [at for at, o in h.ops.items() if o[1].mangled == rp.mangled]
    pos = Pos(e, h)
    for at in main:
        b = pos.at.get(at, ())
        ck.ob(bool(b) and all(x[0] == 'other' and x[1] in seq for x in b), 'DOS header: read first', '%s (pe_base::pe_base)' % h.ops[at][0].loc, 'the image is read before its DOS header')
    ck.need(len(main), 1, 'calls of the loader')
    # the factory
    fs = [f for f in p.named('pe_factory::create_pe') if f.has_body]
    cm = [x for x in p.named('pe_base::pe_base') if any('istream' in t for t in x.params)][0]
    n = len(cm.args) - len(cm.params)
    cb = [j + n for j, t in enumerate(cm.params) if t == 'bool']
    for f in fs:
        h = post.Rec(lambda fn, i: fn.mangled == cm.mangled)
        e, _ = post.analyse(p, f, models=stream.smodels(p), hooks=h)
        m = len(f.args) - len(f.params)
        fb = [j + m for j, t in enumerate(f.params) if t == 'bool']
        ck.ob(bool(h.calls), 'factory: image', f.where, 'the factory creates no image')
        for i, fn, a, st in h.calls:
            ok = len(fb) == len(cb) and all(a[x] == ('arg', 1, y, f.mangled) for x, y in zip(cb, fb))
            ck.ob(ok, 'factory: flags', '%s (pe_factory::create_pe)' % i.loc, 'the factory does not pass its flags on in their order')


def kindof(ck, p):
    fs = [f for f in p.repo_fns() if f.name == PB + 'get_pe_type' and f.has_body and stream.stream_arg(f) is not None]
    dos = post.members(p, 'image_dos_header')
    lf = post.dict_or(dos, 'e_lfanew', 'e_lfanew')[0]
    for f in fs:
        h = Ops(stream.stream_arg(f))
        e, _ = post.analyse(p, f, models=stream.smodels(p), opts={'phiguard': True}, hooks=h)
        pos = Pos(e, h)
        heads = [e.asptr(o[2][-1]) for at, o in h.ops.items() if o[1].name == PB + 'read_dos_header']
        rd = [(at, o) for at, o in h.ops.items() if kind(o[1]) == 'read']
        for at, (i, fn, a, st) in rd:
            w = '%s (pe_base::get_pe_type)' % i.loc
            b = pos.before(at)
            ok = bool(b)
            for x in b:
                ok = ok and x[0] == 'seek' and any(same32(post.Q(e, h.ops[x[1]][3]), target(h.ops[x[1]]), e.read(h.ops[x[1]][3], hb, (ho[0] + lf, ho[1]), 4)) for hb, ho in heads)
            ck.ob(ok, 'kind of image: place', w, 'the kind of an image is not read from the headers that its DOS header points to')
        ck.need(len(rd), 1, 'reads that decide the kind of an image')
    ck.need(len(fs), 1, 'functions that decide the kind of an image')
