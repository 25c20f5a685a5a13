"""Access to the bytes of sections and headers: where pointers point and how much data is reported behind them."""
from .. import ir, post, lin
from ..absint import C, tbits, mkptr
from ..build import Broken
from ..summ import Sum, Layout, fns, modlin, unreachable
from .p27 import PB, SEC, MODELS, le, LO

GV, GA = SEC + 'get_virtual_address', SEC + 'get_aligned_virtual_size'


class Reads(Sum):
    """also keeps the reads of character data"""

    def access(self, e, st, i, base, off, n, kind):
        if e.final and kind in ('load', 'copy-src') and (base[0] == 'str' or base[0] == 'obj' and base[1][0] == 'call' and base[1][2].endswith(PB + 'section_data_from_rva')):
            self.reads.append((i, base, off, n, st.copy()))


class Fn(object):
    def __init__(self, p, L, f, dt, cls=Sum):
        self.p, self.f, self.dt = p, f, dt
        h = len(f.args) - len(f.params)
        self.this = ('arg', h - 1)
        ti = [k for k, t in enumerate(f.params) if 'data_type' in t]
        self.bi = [k + h for k, t in enumerate(f.params) if t == 'bool']
        self.typed = cls is Reads
        cls.reads = []
        self.s = cls(p, f, {ti[0] + h: C(dt, 32)} if ti else {}, models=MODELS)
        e = self.e = self.s.e
        self.addr = [e.argterm(f.args[k + h]['id']) for k, t in enumerate(f.params) if t == 'unsigned int']
        self.sec = [e.asptr(e.argterm(f.args[k + h]['id'])) for k, t in enumerate(f.params) if t.startswith('pe_bliss::section') and '&' in t]
        self.hoff = L.at('pe_bliss::pe_base', 'full_headers_data_')[0]
        self.hlen = ('len', 64, ('sv', self.this, (self.hoff, ()), 'init'))
        self.get = {}
        for i, fn, a, res, st in self.s.results:
            if fn is not None and res is not None and a:
                self.get.setdefault((fn.short, e.asptr(a[0])), (res, a))
        self.X = self.sec[0] if self.sec else None
        if self.X is None:
            for i, fn, a, res, st in self.s.results:
                if fn is not None and fn.short == PB + 'section_from_rva' and a[1] == self.addr[0]:
                    self.X = e.asptr(res)

    def va(self):
        r = self.get.get((GV, self.X))
        return r[0] if r else None

    def align_ok(self, a):
        return a[1][0] == 'call' and a[1][2].endswith(PB + 'get_section_alignment')

    def content(self):
        """the object that holds the selected data of the section"""
        if self.dt == 1:
            r = self.get.get((SEC + 'get_virtual_data', self.X))
            return self.e.asptr(r[0]) if r and self.align_ok(r[1]) else None
        r = self.get.get((SEC + 'get_raw_data', self.X))
        return self.e.asptr(r[0]) if r else None

    def total(self):
        """the number of bytes of the selected data"""
        if self.dt == 1:
            r = self.get.get((GA, self.X))
            return self.e.mkcast('zext', 32, 64, r[0]) if r and self.align_ok(r[1]) else None
        c = self.content()
        return ('len', 64, ('sv', c[0], c[1], 'init')) if c else None

    def aligned(self):
        r = self.get.get((GA, self.X))
        return [r[0]] if r and self.align_ok(r[1]) else []

    def inhdr(self, e=None, st=None):
        return [('ult', self.e.mkcast('zext', 32, 64, r), self.hlen) for r in self.addr]

    def flag(self):
        return self.e.argterm(self.f.args[self.bi[0]]['id']) if self.bi else None

    def is_hdr(self, q):
        """the headers were asked for and contain the addresses"""
        return self.flag() is not None and q.true(self.flag()) and all(q.ult(self.e.mkcast('zext', 32, 64, r), self.hlen) for r in self.addr)

    def not_hdr(self, q):
        if self.flag() is None:
            return True
        return unreachable(self.e, q, [('true', self.flag())] + self.inhdr())


def pointer(F):
    some = False
    for v, q in F.s.cases():
        some = True
        bad = place(F, q, *F.e.asptr(v))
        if bad:
            return bad
    return None if some else 'gives nothing'


def place(F, q, b, o):
    c = F.e.ctx(q.st.node)
    off = F.e.lzoff(c, o)
    # a difference that the address space cannot hold is not a position
    if b == ('str', ('sv', F.this, (F.hoff, ()), 'init'), 1):
        if not F.is_hdr(q):
            return 'gives header bytes for an address that is not in the headers, or without being asked to'
        if not same(F.e, c, off, F.e.lz(c, F.addr[0])):
            return 'gives a position in the headers that is not the address'
        return None
    if F.va() is None or F.content() is None:
        return 'does not give data of the section that contains the address'
    x = F.content()
    if b != ('str', ('sv', x[0], x[1], 'init'), 1):
        return 'does not give the requested kind of data of the section that contains the address'
    if not F.typed and not F.not_hdr(q):
        return 'gives section data for an address in the headers'
    u = q.under([le(F.e, q.st, ((1, F.va()), (-1, F.addr[0])), 0)])
    c = F.e.ctx(u.st.node)
    if not same(F.e, c, F.e.lzoff(c, o), lin.add(F.e.lz(c, F.addr[0]), F.e.lz(c, F.va()), 1, -1)):
        return 'gives a position that is not the distance from the start of the section'
    return None


def typed(F):
    """the typed readers copy sizeof(T) bytes from the place the untyped one gives"""
    hdr = sec = False
    parts = {}
    for i, b, o, n, st in F.s.reads:
        q = post.Q(F.e, st)
        if q.impossible():
            continue
        if b[0] == 'obj':
            # the place the untyped accessor gives for the same address
            if F.addr[0] not in b[1] or C(F.dt, 32) not in b[1]:
                return 'reads the data of another address or kind (%s)' % i.loc
            hdr = sec = True
            continue
        # a value of up to 16 bytes is read in parts
        for d in range(16):
            bad = place(F, q, b, (o[0] - d, o[1]))
            if not bad:
                break
            first = bad if not d else first
        if bad:
            return '%s (%s)' % (first, i.loc)
        parts.setdefault(b, []).append((d, n[1] if n[0] == 'c' else 0))
        hdr = hdr or b[1][1] == F.this
        sec = sec or b[1][1] != F.this
    if not sec or F.flag() is not None and not hdr:
        return 'does not read the data'
    for b in parts:
        end = 0
        for d, n in sorted(parts[b]):
            if d > end:
                return 'leaves out a part of the data'
            end = max(end, d + n)
    return None


def same(e, c, a, b):
    d = lin.add(a, b, 1, -1)
    return c.entails(d) and c.entails(lin.scale(d, -1))


def length(F):
    e = F.e
    some = False
    inside = F.addr[-1]
    rest = len(F.addr) == 2 or bool(F.sec)
    for v, q in F.s.cases():
        some = True
        m = modlin(e, v, 32)
        if F.flag() is not None and F.is_hdr(q):
            want = modlin(e, e.mkop('sub', 64, F.hlen, e.mkcast('zext', 32, 64, inside)) if rest else F.hlen, 32)
            if m != want:
                return 'the length reported in the headers is wrong'
            continue
        if not F.not_hdr(q):
            return 'reports a section length for an address in the headers'
        T = F.total()
        if T is None:
            return 'does not use the size of the requested kind of data'
        if not rest:
            if m != modlin(e, T, 32):
                return 'the length is not the size of the requested kind of data of the section that contains the address'
            continue
        if F.va() is None:
            return 'does not use the start of the section'
        want = modlin(e, e.mkop('sub', 64, e.mkop('add', 64, T, e.mkcast('zext', 32, 64, F.va())), e.mkcast('zext', 32, 64, inside)), 32)
        c = e.ctx(q.st.node)
        d = lin.add(lin.add(e.lz(c, T), e.lz(c, F.va())), e.lz(c, inside), 1, -1)
        near = any(x[0] == 'ult' and x[1] == inside and modlin(e, x[2], 32) == modlin(e, e.mkop('add', 64, e.mkcast('zext', 32, 64, F.va()), e.mkcast('zext', 32, 64, al)), 32)
                   for al in F.aligned() for x in q.facts()) and q.ule(F.va(), inside)

        def wide(t):
            # a difference of 32 bits only has the right sign for an address in the section
            return near or tbits(t) > 32
        neg = any(x[0] in ('slt', 'sle') and len(x) == 3 and wide(x[1]) and x[2][0] == 'c' and x[2][1] == 0 and modlin(e, x[1], 32) == want for x in q.facts())
        pos = any(x[0] in ('slt', 'sle') and len(x) == 3 and wide(x[2]) and x[1][0] == 'c' and (x[1][1] == 0 or x[1][1] == (1 << x[1][2]) - 1 and x[0] == 'slt') and modlin(e, x[2], 32) == want for x in q.facts())
        neg = neg or c.entails(d)
        pos = pos or c.entails(lin.scale(d, -1))
        if not m:
            if not neg:
                return 'reports no data where there is some'
        elif m == want:
            if not pos:
                return 'reports data behind the end of the section data'
        else:
            return 'the length is not the distance from the address to the end of the data'
    return None if some else 'gives nothing'


def run(ck):
    p = ir.load('acc')
    L = Layout(p)
    n = 0
    for name, rule in (('section_data_from_rva', pointer), ('section_data_length_from_rva', length)):
        for f in fns(p, PB + name):
            if not f.dem.split('(')[0].endswith('>'):
                n += 1
            elif rule is not pointer:
                continue
            dts = [(0, 'raw'), (1, 'virtual')] if any('data_type' in t for t in f.params) else [(0, 'raw')]
            for dt, nm in dts:
                if f.dem.split('(')[0].endswith('>'):
                    t = f.dem.split('(')[0].split('<', 1)[1][:-1].split('::')[-1]
                    bad = typed(Fn(p, L, f, dt, Reads))
                    ck.ob(not bad, '%s<%s>%s %s' % (name, t, ' of a section' if len(f.params) and '&' in f.params[0] else '', nm), f.where, bad or '')
                    ck.count('typed accessors', 1)
                    continue
                F = Fn(p, L, f, dt)
                bad = rule(F)
                ck.ob(not bad, '%s(%s)%s %s' % (name, ', '.join(t.replace('pe_bliss::', '') for t in f.params), ' const' if f.const else '', nm), f.where, bad or '')
                ck.count('result cases', len(F.s.cases()))
    if n < 5:
        raise Broken('P18: only %d accessors found' % n)
    ck.count('accessors', n)
    ck.level = 'proof'
    ck.trusted = ['clang 18 front end and inliner', 'pv/absint.py, pv/summ.py', 'models of std::string']
    ck.explanation = ('For each accessor and each kind of data, every result case is matched against the object that holds the data of the section (or the headers), '
                      'and the offset or length is compared as a linear form of the address, the start of the section and the size of the data.')
