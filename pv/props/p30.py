"""P30: what is read from resources is what the image stores."""
import itertools, re
from .. import ir, bitv, prov
from ..heap import C, mkop, mkcast
from ..build import Broken
from . import p28
from .p11 import View
from .p12 import where, last
from .p28 import DIR, RD, Ctx, of, plus, value, istest


def mask(t):
    return mkop('and', 32, t, C(0x7fffffff, 32))


def pointee(P, s, b, o):
    v = prov.cells(P, s, b, o, 8)
    if isinstance(v, tuple) and v[0] == 'p' and isinstance(v[2], int):
        return v
    v = s.mem.get((b, o))
    v = v[1] if v is not None else None
    return v if isinstance(v, tuple) and v[0] == 'p' else None


def selfbits(x, want):
    """the same value bit by bit"""
    if prov.equal(x, want):
        return True
    try:
        a, b = bitv.bv(x), bitv.bv(want)
    except Exception:
        return False
    n = max(len(a), len(b))
    return a + [0] * (n - len(a)) == b + [0] * (n - len(b))


class Tree(object):
    """the reader of one resource directory; all offsets count from the start of the resource data"""

    def __init__(self, c):
        self.c, self.P = c, c.P
        f = c.f
        z = len(f.args) - len(f.params)
        nums = [k for k, t in enumerate(f.params) if t == 'unsigned int']
        self.ok = len(nums) == 2 and z == 1
        if not self.ok:
            c.ck.note('process_resource_directory takes other arguments')
            return
        self.root, self.off = [('a', z + k, 32) for k in nums]
        self.D = plus(self.root, 0, (self.off, 1))
        self.E = lambda i: plus(self.D, 16, (i, 8))
        self.self = f.mangled

    def at(self, off, n=0):
        return plus(self.root, n, (off, 1))

    def run(self):
        c, P = self.c, self.P
        V = c.view('resource_directory')
        want = {'get_characteristics': RD(self.D, 0, 4), 'get_timestamp': RD(self.D, 4, 4), 'get_major_version': RD(self.D, 8, 2), 'get_minor_version': RD(self.D, 10, 2)}
        for v, s in P.rets:
            c.check('resource_directory', ('arg', 0), 0, s, where(c.f), want)
        hit = 0
        for cls, i, cont, e, s in c.R.elements():
            if cls == 'resource_directory_entry':
                hit += 1
                self.entry(i, e, s)
        if not hit:
            c.put('resource_directory_entry', '', False, where(c.f), 'no entry is ever added')
        count = lambda i: (i, mkop('add', 32, mkcast('zext', 16, 32, RD(self.D, 14, 2)), mkcast('zext', 16, 32, RD(self.D, 12, 2))))
        c.all('resource_directory_entry', of('resource_directory_entry'), [('ge', count)])
        c.done()

    def given(self, its, fn):
        return [fn(('any', y, 32)) for y in its]

    def entry(self, i, e, s):
        c, P = self.c, self.P
        cls = 'resource_directory_entry'
        V = c.view(cls)
        val = lambda g: value(V, P, s, g, e[1], e[2])[0]
        cs = [prov.norm(x) for x in s.conds]
        its = []
        for x in cs + [val('get_id'), val('get_name')]:
            for y in prov.iters(x):
                if y not in its:
                    its.append(y)
        named, data = val('is_named'), val('includes_data')

        def bit(off):
            """what the conditions say about the top bit of the word at this offset of the entry"""
            for y in its:
                b = bitv.bv(RD(self.E(('any', y, 32)), off, 4))[31]
                for x in cs:
                    t = istest(x, b)
                    if t is not None:
                        return t
            return None
        for g, v, t in (('is_named', named, bit(0)), ('includes_data', data, bit(4))):
            t = None if t is None else t if g == 'is_named' else not t
            c.put(cls, g, t is not None and v[0] == 'c' and bool(v[1]) == t, i.loc, 'does not follow the top bit of the word in the entry')
        if named[0] == 'c' and named[1]:
            self.name(i, e, s, its)
        else:
            got = val('get_id')
            c.put(cls, 'get_id', any(prov.equal(got, mkcast('zext', 16, 32, RD(self.E(('any', y, 32)), 0, 2))) or prov.equal(got, RD(self.E(('any', y, 32)), 0, 4)) for y in its),
                  i.loc, 'the identifier is taken from %s' % prov.say(got))
        p = pointee(P, s, e[1], e[2] + self.slot('get_data_entry'))
        if p is None:
            c.put(cls, 'content', False, i.loc, 'the data or directory of an entry is not a new object')
        elif data[0] == 'c' and data[1]:
            self.data(i, p, s, its)
        else:
            self.sub(i, p, s, its)

    def slot(self, g):
        for conds, v in self.c.view('resource_directory_entry').get[g]:
            if v is not None and v[0] == 'ld' and v[1] == ('arg', 0):
                return v[2]
        raise Broken('no pointer in a resource directory entry')

    def name(self, i, e, s, its):
        c = self.c
        got = value(c.view('resource_directory_entry'), c.P, s, 'get_name', e[1], e[2])[0]
        texts = found(got, lambda t: t[0] == 'of' and len(t) > 2 and t[1] == 'basic_string')
        ok = False
        for t in texts:
            a = [prov.norm(x) for x in t[2]]
            for y in its:
                w = mask(RD(self.E(('any', y, 32)), 0, 4))
                ok = ok or len(a) >= 2 and a[0][0] == 'ptr' and self.place(a[0], w, 2) and prov.equal(low16(a[1]), RD(self.at(w), 0, 2))
        c.put('resource_directory_entry', 'get_name', got[0] == 'mut' and got[1] == 'from_ucs2' and ok, i.loc,
              'the name is not the counted string at the offset of the entry')

    def place(self, ptr, off, n):
        r, m = prov.addr(ptr)
        q, k = prov.addr(self.at(off, n))
        return m == k and prov.key(r) == prov.key(q) or prov.addr(ptr) == prov.addr(p28.STR(self.at(off, n))[1][0])

    def data(self, i, p, s, its):
        c = self.c
        V = c.view('resource_data_entry')
        cp = value(V, c.P, s, 'get_codepage', p[1], p[2])[0]
        tx = value(V, c.P, s, 'get_data', p[1], p[2])[0]
        ok1 = ok2 = ok3 = False
        for y in its:
            R = self.at(RD(self.E(('any', y, 32)), 4, 4))
            R2 = self.at(mask(RD(self.E(('any', y, 32)), 4, 4)))
            for r in (R, R2):
                ok1 = ok1 or prov.equal(cp, RD(r, 8, 4))
                if tx[0] == 'text' and len(tx[1]) >= 2:
                    ok2 = ok2 or tx[1][0] == p28.STR(RD(r, 0, 4))[1][0]
                    ok3 = ok3 or prov.equal(narrow(tx[1][1]), RD(r, 4, 4))
        c.put('resource_data_entry', 'get_codepage', ok1, i.loc, 'the code page is taken from %s' % prov.say(cp))
        c.put('resource_data_entry', 'get_data', ok2, i.loc, 'the data are taken from %s' % prov.say(tx))
        c.put('resource_data_entry', 'size of the data', ok3, i.loc, 'the size of the data is not that of the data entry')

    def sub(self, i, p, s, its):
        c, P = self.c, self.P
        log = set(k for b, k in s.visit.get('log', ()))
        ok, rets = False, []
        for k, (j, g, a, t) in enumerate(P.seen):
            if g is None or g.mangled != self.self or k not in log:
                continue
            n = [prov.norm(x) if isinstance(x, tuple) else x for x in a]
            good = n[1][:2] == ('p', ('arg', 1)) and prov.equal(n[self.root[1]], self.root)
            w = n[self.off[1]]
            ok = good and any(selfbits(w, mask(RD(self.E(('any', y, 32)), 4, 4))) for y in its)
            rets.append(a[0])
        lst = s.cont.get((p[1], p[2] + 24)) or [v for k2, v in s.cont.items() if k2[0] == p[1]]
        same = any(found(lst, lambda t: t == r[1]) for r in rets if r[0] == 'p')
        c.put('resource_directory_entry', 'directory below', ok, i.loc, 'the directory below is not read from the offset in the entry')
        c.put('resource_directory_entry', 'get_resource_directory', same, i.loc, 'the entry does not hold the directory that was read')


def narrow(t):
    while t[0] == 'cast' and t[1] == 'zext' and t[2] >= 32:
        t = t[4]
    return t


def low16(t):
    while t[0] == 'cast' and t[1] == 'zext' and t[2] >= 16:
        t = t[4]
    return t


def found(t, pred):
    r = []
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            if isinstance(x, tuple) and x and pred(x):
                r.append(x)
            todo += list(x)
    return r


def root(ck, p, f, view):
    """the root directory is the one at the start of the resource data"""
    c = Ctx(ck, p, f, view, ('process_resource_directory',))
    ok, n, got = True, 0, set()
    for i, g, a, s in c.P.seen:
        if g is None or g.short != 'process_resource_directory':
            continue
        n += 1
        z = len(g.args) - len(g.params)
        nums = [z + k for k, t in enumerate(g.params) if t == 'unsigned int']
        x = [prov.norm(a[k]) for k in nums]
        ok = ok and len(x) == 2 and prov.equal(x[0], DIR(2)) and prov.equal(x[1], C(0, 32)) and a[1][:2] == ('p', ('arg', 1))
        got.add(a[0][1])
    bad, some = False, ('arg', 0) in got
    for v, s in c.P.rets:
        lst = [v for k, v in s.cont.items() if k[0] == ('arg', 0)]
        if any(found(lst, lambda t: t == b) for b in got):
            some = True
        elif ('arg', 0) not in got and any(x[0] != 'empty' for x in lst):
            bad = True
    ck.ob(not bad and some, '%s: result' % c.label, where(f), 'the directory read is not what is returned')
    ck.ob(ok and n > 0, '%s: root directory' % c.label, where(f), 'the root directory is not read from the start of the resource directory of the image')


# ---- decoders of resource bytes ----
class Bytes(object):
    """the bytes of the string that a decoder is given"""

    def __init__(self, c):
        self.c, self.P, f = c, c.P, c.f
        z = len(f.args) - len(f.params)
        k = [z + j for j, t in enumerate(f.params) if 'basic_string<char' in t]
        self.base = ('call', 'basic_string::data', (('p', ('arg', k[0]), 0),), 64, ()) if k else None
        nums = [z + j for j, t in enumerate(f.params) if t == 'unsigned int']
        self.num = ('a', nums[0], 32) if nums else None

    def at(self, n, *its):
        return plus(self.base, n, *its)

    def rd(self, a, off, size):
        r, n = prov.addr(a)
        return ('ld', ('mem', prov.key(r)), n + off, size, 0)

    def same(self, ptr, a):
        r, n = prov.addr(ptr)
        q, m = prov.addr(a)
        return n == m and prov.key(r) == prov.key(q)

    def inserts(self):
        """(call, state, key, value) of every pair put into the result"""
        for i, g, a, s in self.P.seen:
            if 'map<' in (g.dem if g is not None else '') and len(a) == 2 and a[1][0] == 'p':
                v = s.cont.get((a[1][1], a[1][2]))
                if v is not None and v[0] == 'pair':
                    yield i, s, prov.norm(v[1]), v[2]
                else:
                    yield i, s, None, None

    def text(self, v):
        """(address, length) of the bytes a string is made of, whatever conversion follows"""
        r = [t for t in found(v, lambda t: t[0] == 'of' and t[1] == 'basic_string' and len(t[2]) >= 2)]
        return (r[0][2][0], narrow(prov.norm(r[0][2][1]))) if len(r) == 1 else None

    def made(self, v):
        return {t[1] for t in found(v, lambda t: t[0] == 'mut')} - {'allocator'}


def recs(P):
    for k, (es, bs) in sorted(P.recs.items(), key=repr):
        yield ('any', ('rec',) + k, 32), [prov.norm(x) for x in es], [prov.norm(x) for x in bs]


MAP = lambda g, a: 'map<' in g.dem
INS = ('insert', 'emplace', 'emplace_hint')


def strings(ck, p, f, view):
    """the 16 counted strings of a table, numbered from (table - 1) * 16"""
    c = Ctx(ck, p, f, view)
    B = Bytes(c)
    if B.base is None or B.num is None:
        ck.note('%s takes other arguments' % c.label)
        return
    ln = lambda x: B.rd(B.at(0, (x, 1)), 0, 2)
    pos = None
    for it, es, bs in recs(c.P):
        w = mkop('add', 32, plus(it, 2), mkop('mul', 32, mkcast('zext', 16, 32, ln(it)), C(2, 32)))
        if all(prov.equal(x, C(0, 32)) for x in es) and es:
            if all(prov.equal(x, w) or prov.addr(x) == prov.addr(w) for x in bs) and bs:
                pos = it
    c.put('string', 'position', pos is not None, where(f), 'the strings are not walked from the start of the data by their stored lengths')
    n = 0
    for i, s, k, v in B.inserts():
        n += 1
        if k is None or pos is None:
            c.put('string', 'number', False, i.loc, 'an element is not made of a number and a text')
            continue
        its = [y for y in prov.iters(k)]
        want = [mkcast('trunc', 32, 16, mkop('add', 32, mkop('shl', 32, mkop('add', 32, B.num, C(0xffffffff, 32)), C(4, 32)), ('any', y, 32))) for y in its]
        c.put('string', 'number', any(prov.equal(k, w) for w in want) and len(its) == 1, i.loc, 'the number of the string is %s' % prov.say(k))
        t = B.text(v)
        c.put('string', 'text', t is not None and B.same(t[0], B.at(2, (pos, 1))) and prov.equal(t[1], ln(pos)), i.loc, 'the text is not the counted string at the position')
        c.put('string', 'conversion', B.made(v) <= {'from_ucs2'}, i.loc, 'the text is changed')
    if not n:
        c.put('string', '', False, where(f), 'no string is ever reported')
    if pos is not None:
        c.all('string', MAP, [('ge', lambda i: (i, C(16, 32)))], [[('zero', lambda i: ln(pos))], [('zero', lambda: ln(pos))]], INS)
    c.done()


def messages(ck, p, f, view):
    """blocks of messages, each with a first and last number and the place of its first entry"""
    c = Ctx(ck, p, f, view)
    B = Bytes(c)
    if B.base is None:
        ck.note('%s takes other arguments' % c.label)
        return
    blk = lambda i: B.at(4, (i, 12))
    ent = lambda i, x: B.at(0, (B.rd(blk(i), 8, 4), 1), (x, 1))
    size = lambda i, x: B.rd(ent(i, x), 0, 2)
    pos = num = None
    rs = list(recs(c.P))
    for it, es, bs in rs:
        its = []
        for x in bs + es:
            for y in prov.iters(x):
                if y not in its and y != it[1]:
                    its.append(y)
        for y in its:
            y = ('any', y, 32)
            w = mkop('add', 32, it, mkcast('zext', 16, 32, size(y, it)))
            if es and bs and all(prov.equal(x, C(0, 32)) for x in es) and all(prov.equal(x, w) or prov.addr(x) == prov.addr(w) for x in bs):
                pos, blkit = it, y
    for it, es, bs in rs:
        if pos is not None and es and all(prov.equal(x, B.rd(blk(blkit), 0, 4)) for x in es):
            num = it
    c.put('message', 'position', pos is not None, where(f), 'the entries of a block are not walked from the stored place by their stored lengths')
    c.put('message', 'first number', num is not None, where(f), 'the numbers do not start with the first number of the block')
    V = view('message_table_item')
    slot = {}
    for g in ('get_ansi_string', 'get_unicode_string'):
        for conds, v in (V.get.get(g, ()) if V is not None else ()):
            if v is not None and v[0] == 'p' and v[1] == ('arg', 0):
                slot[v[2]] = g
    n = 0
    for i, s, k, v in B.inserts():
        n += 1
        if k is None or pos is None or num is None:
            c.put('message', 'number', False, i.loc, 'an element is not made of a number and a message')
            continue
        c.put('message', 'number', prov.equal(k, num), i.loc, 'the number of the message is %s' % prov.say(k))
        bit = bitv.bv(B.rd(ent(blkit, pos), 2, 2))[0]
        uni = [t for t in (istest(prov.norm(x), bit) for x in s.conds) if t is not None]
        got = [(slot[o], x) for o, x in (v[2] if v[0] == 'obj' else ()) if o in slot and B.text(x) is not None]
        ok = len(got) == 1 and bool(uni) and (got[0][0] == 'get_unicode_string') == uni[0]
        c.put('message', 'kind', ok, i.loc, 'the kind of text does not follow the flag of the entry')
        if len(got) != 1:
            continue
        a, m = B.text(got[0][1])
        full = mkop('sub', 32, mkcast('zext', 16, 32, size(blkit, pos)), C(4, 32))
        ok = any(prov.equal(m, mkop(o, 32, full, C(q, 32))) for o, q in (('udiv', 2), ('lshr', 1))) if got[0][0] == 'get_unicode_string' else prov.equal(m, full)
        c.put('message', 'text', B.same(a, plus(ent(blkit, pos), 4)) and ok, i.loc, 'the text is not what follows the header of the entry')
        c.put('message', 'conversion', B.made(got[0][1]) <= {'from_ucs2', 'strip_nullbytes'}, i.loc, 'the text is changed')
    if not n:
        c.put('message', '', False, where(f), 'no message is ever reported')
    elif num is not None:
        beyond = lambda x: x[0] == 'cmp' and any(x[1] == o and prov.equal(x[a], num) and prov.equal(x[b], B.rd(blk(blkit), 4, 4)) for o, a, b in (('ugt', 2, 3), ('ult', 3, 2)))
        c.all('message', MAP, [('flag', beyond)], (), INS)
        outer(c, 'message', [('ge', lambda i: (i, B.rd(B.at(0), 0, 4)))])
    c.done()


def outer(c, cls, ends):
    """the loop around the loop that appends ends where the data say"""
    cfg = c.f.cfg()
    heads = set()
    for s in [s for v, s in c.P.rets] + [s for L in c.P.backs.values() for s in L]:
        for b, k in s.visit.get('log', ()):
            hs = sorted([h for h in cfg.loops if b in cfg.loops[h]], key=lambda h: len(cfg.loops[h]))
            heads.add(hs[1] if len(hs) > 1 else None)
    ok, n = None not in heads, 0
    for v, s in c.P.rets:
        for h in heads:
            e = s.visit.get(('end', h))
            if e:
                n += 1
                ok = ok and any(c.cond(prov.norm(x), w, 0) for x in e[0] for w in ends)
    c.put('list of ' + cls, 'all blocks', ok and n > 0, where(c.f), 'not every block is read')


RICH, DANS = 0x68636952, 0x536e6144


def rich(ck, p, f, view):
    """pairs of words behind the mark "DanS", hidden with the word behind the mark "Rich" """
    c = Ctx(ck, p, f, view)
    stub = lambda t: t[0] == 'call' and t[1].endswith('::get_stub_overlay')
    cls = 'rich_data'
    hit = 0
    V = view(cls)
    for name, i, cont, e, s in c.R.elements():
        if name != cls:
            continue
        hit += 1
        val = dict((g, value(V, c.P, s, g, e[1], e[2])[0]) for g in ('get_number', 'get_version', 'get_times'))
        bases = [t for t in found(list(val.values()), lambda t: t[0] == 'call' and (t[1] == 'basic_string::data' or t[1] == 'basic_string::operator[]' and t[2][1:] == (C(0, 64),)) and found(t[2], stub))]
        its = []
        for x in val.values():
            for y in prov.iters(x):
                if y not in its:
                    its.append(y)
        cs = [prov.norm(x) for x in s.conds]
        ok = dict((g, False) for g in val)
        marks = False
        for B in bases[:1]:
            rd = lambda n, *a: ('ld', ('mem', prov.key(prov.addr(plus64(B, 0, *a))[0])), n, 4, 0)
            for r, d, k in itertools.permutations(its, 3):
                r, d, k = [('any', y, 64) for y in (r, d, k)]
                x = lambda n: mkop('xor', 32, rd(n, (d, 1), (k, 8)), rd(4, (r, 1)))
                got = {'get_number': prov.equal(val['get_number'], mkop('lshr', 32, x(16), C(16, 32))), 'get_version': prov.equal(val['get_version'], mkop('and', 32, x(16), C(0xffff, 32))),
                       'get_times': prov.equal(val['get_times'], x(20))}
                if sum(got.values()) > sum(ok.values()):
                    ok = got
                    is_ = lambda t, w: any(q[0] == 'cmp' and q[1] == 'eq' and (prov.equal(q[2], t) and q[3] == C(w, 32) or prov.equal(q[3], t) and q[2] == C(w, 32)) for q in cs)
                    marks = is_(rd(0, (r, 1)), RICH) and (is_(mkop('xor', 32, rd(0, (d, 1)), rd(4, (r, 1))), DANS) or is_(mkop('xor', 32, rd(4, (r, 1)), rd(0, (d, 1))), DANS))
        for g in sorted(ok):
            c.put(cls, g, ok[g], i.loc, 'reports %s' % prov.say(val[g]))
        c.put(cls, 'marks', marks, i.loc, 'the data are not looked for between the marks')
    if not hit:
        c.put(cls, '', False, where(f), 'no element is ever added')
    stop = lambda x: x[0] == 'cmp' and (x[1] == 'eq' and C(RICH, 32) in x[2:] or not found(x, lambda t: t[0] == 'ld'))
    c.all(cls, of(cls), [('flag', stop)])
    c.done()


def plus64(a, n, *its):
    t = mkop('add', 64, a, C(n, 64))
    for i, k in its:
        t = mkop('add', 64, t, mkop('mul', 64, i, C(k, 64)))
    return t


DECODERS = [(r'^get_rich_data$', rich), (r'resource_string_table_reader::parse_string_list$', strings), (r'resource_message_list_reader::parse_message_list$', messages)]


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18', 'tools/irx', 'pv/heap.py', 'pv/prov.py']
    ck.explanation = ('Every value an entry of the resource tree, a string, a message or a Rich record reports is traced on every path to the bytes it was read from; their address '
                      '(start of the resources or of the data, stored offset, entry size times iteration, running position) must be the one the format gives. '
                      'Loops must append every element once and end only where the stored counts, lengths or marks say; recursion must continue at the stored offset.')
    ck.assumptions = ['address arithmetic does not wrap (decided where the reader checks it)']
    p = ir.load('rd')
    views = {}
    for cls in p.types:
        if cls.startswith('pe_bliss::') and '<' not in cls:
            views[cls.split('::', 1)[1]] = cls

    def view(c):
        if isinstance(views.get(c), str):
            views[c] = View(p, views[c], c)
        return views.get(c)
    n = 0
    for f in p.repo_fns():
        if f.has_body and f.short == 'process_resource_directory':
            n += 1
            t = Tree(Ctx(ck, p, f, view, ('process_resource_directory',)))
            if t.ok:
                t.run()
        elif f.has_body and f.short == 'get_resources':
            n += 1
            root(ck, p, f, view)
        for pat, fn in DECODERS:
            if f.has_body and re.search(pat, f.short):
                n += 1
                fn(ck, p, f, view)
    ck.need(n, 4, 'readers of resources')
