"""Alignment, overflow and termination helpers: exact for every operand and every power-of-two alignment."""
from .. import ir, post, lin
from ..absint import C, tbits
from ..build import Broken
from ..summ import Sum, Layout, fns, truth


class Form(object):
    """terms over x = Q + R with 2^k | Q and 0 <= R < 2^k, as q*Q + r*R + c modulo 2^bits; zero: is R known to be 0"""

    def __init__(self, e, st, x, k, zero, assume=None):
        self.e, self.st, self.x, self.k, self.zero = e, st, x, k, zero
        self.assume = assume or {}

    def rng(self, f):
        q, r, c = f
        lo, hi = (0, 0) if self.zero else (1, (1 << self.k) - 1)
        a, b = r * lo + c, r * hi + c
        return min(a, b), max(a, b)

    def norm(self, bits, q, r, c):
        m = 1 << bits
        if self.zero:
            r = 0
        # representatives near zero, so that the low part stays in one block
        f = [v % m for v in (q, r, c)]
        return tuple(v - m if v > m // 2 else v for v in f)

    def low(self, f):
        """the part below 2^k, when it lies in one block"""
        q, r, c = f
        lo, hi = self.rng(f)
        j = lo >> self.k
        if hi >> self.k != j:
            return None
        return (0, r, c - (j << self.k))

    def ev(self, t, depth=0):
        if depth > 40:
            return None
        bits = tbits(t)
        if t == self.x:
            return self.norm(bits, 1, 1, 0)
        k = t[0]
        if k == 'c':
            return self.norm(bits, 0, 0, t[1])
        if k == 'cast':
            if t[2] == 'trunc':
                u = self.trunc(t[4], bits)
                r = self.ev(u, depth + 1) if u is not None else None
                if r is not None:
                    return r
            f = self.ev(t[4], depth + 1)
            if f is None or f[0] == 'div':
                return None
            if t[2] == 'trunc':
                return self.norm(bits, *f)
            if t[2] == 'zext':
                lo, hi = self.rng(f)
                if f[0] == 0 and lo >= 0 and hi < 1 << t[3] or f in ((1, 1, 0), (1, 0, 0)):
                    return self.norm(bits, *f)
                if f[0] == 0 and lo == hi:
                    return self.norm(bits, 0, 0, lo % (1 << t[3]))
            return None
        if k == 'op':
            a, b = self.ev(t[3], depth + 1), self.ev(t[4], depth + 1)
            op = t[2]
            const = None
            if b is not None and b[0] == 0 and b[1] == 0:
                const = b[2] % (1 << bits)
            if a is not None and a[0] == 'div':
                if const == 1 << self.k and op == 'mul' or op == 'shl' and const == self.k:
                    return a[1]
                return None
            if a is None or b is None or b[0] == 'div':
                return None
            if op in ('srem', 'sdiv') and const is not None and const < 1 << (bits - 1) and tbits(self.x) < bits:
                if a in ((1, 1, 0), (1, 0, 0)) or a[0] == 0 and self.rng(a)[0] >= 0:
                    op = 'u' + op[1:]
            if op == 'add':
                return self.norm(bits, *[x + y for x, y in zip(a, b)])
            if op == 'sub':
                return self.norm(bits, *[x - y for x, y in zip(a, b)])
            if op in ('urem', 'and') and const is not None:
                if (const if op == 'urem' else const + 1) == 1 << self.k:
                    l = self.low(a)
                    return None if l is None else self.norm(bits, *l)
                if op == 'and' and const == (1 << bits) - (1 << self.k):
                    l = self.low(a)
                    return None if l is None else self.norm(bits, *[x - y for x, y in zip(a, l)])
            if op in ('udiv', 'lshr') and const is not None:
                if const == (1 << self.k if op == 'udiv' else self.k):
                    if self.k == 0:
                        return a
                    l = self.low(a)
                    return None if l is None else ('div', self.norm(bits, *[x - y for x, y in zip(a, l)]))
            if op == 'xor' and const == (1 << bits) - 1:
                return self.norm(bits, *[x - y for x, y in zip((0, 0, -1), a)])
            if op == 'shl' and const is not None:
                return self.norm(bits, *[x << const for x in a])
            if op == 'mul' and const is not None:
                return self.norm(bits, *[x * const for x in a])
            if const == 0 and op in ('or', 'xor'):
                return a
            if const == 0 and op == 'and':
                return (0, 0, 0)
            return None
        if k == 'sel':
            v = self.cond(t[2])
            if v is not None:
                return self.ev(t[3] if v else t[4], depth + 1)
            a, b = self.ev(t[3], depth + 1), self.ev(t[4], depth + 1)
            return a if a == b else None
        if t in self.e.phi_edges:
            vs = set()
            for _, v, node in self.e.phi_edges[t]:
                if self.live(node):
                    vs.add(self.ev(v, depth + 1))
            return vs.pop() if len(vs) == 1 else None
        return None

    def trunc(self, t, bits):
        """the truncation pushed into an operation that only needs the low bits, or None"""
        def lo(x):
            n = tbits(x)
            if n == bits:
                return x
            if x[0] == 'cast' and x[2] in ('zext', 'sext', 'trunc'):
                y = x[4]
                if tbits(y) == bits:
                    return y
                if tbits(y) < bits:
                    return self.e.mkcast(x[2], tbits(y), bits, y)
                return lo(y)
            return self.e.mkcast('trunc', n, bits, x)
        if t[0] == 'op' and t[2] in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            return self.e.mkop(t[2], bits, lo(t[3]), lo(t[4]))
        if t[0] == 'sel':
            return ('sel', bits, t[2], lo(t[3]), lo(t[4]))
        return lo(t) if t[0] == 'cast' else None

    def live(self, node):
        return not any(self.fact(f) is False for f in node.facts())

    def fact(self, f):
        if f[0] in ('true', 'false'):
            v = self.cond(f[1])
            return None if v is None else v == (f[0] == 'true')
        if f[0] in ('eq', 'ne', 'ule', 'ult') and len(f) == 3:
            return self.cond(('cmp', 1) + tuple(f))
        return None

    def cond(self, t):
        if t[0] == 'c':
            return bool(t[1])
        if t[0] == 'cast':
            return self.cond(t[4])
        if t[0] == 'op' and t[2] == 'xor' and t[4] == C(1, 1):
            v = self.cond(t[3])
            return None if v is None else not v
        if t[0] != 'cmp':
            return None
        op, x, y = t[2], t[3], t[4]
        if y[0] == 'c' and y[1] == 0 and x in self.assume and op in ('eq', 'ne'):
            return self.assume[x] == (op == 'eq')
        bits = tbits(x)
        a, b = self.ev(x), self.ev(y)
        if a is None or b is None or 'div' in (a[0], b[0]):
            return None
        if op in ('eq', 'ne'):
            d = self.norm(bits, *[p - q for p, q in zip(a, b)])
            if d == (0, 0, 0):
                return op == 'eq'
            lo, hi = self.rng(d)
            m = 1 << bits
            if d[0] == 0 and lo // m == hi // m and lo % m and lo // m == (hi // m) and not (lo <= 0 <= hi):
                return op == 'ne'
            if d[0] in (1, -1) and not self.zero:
                l = self.low(d)
                if l is not None:
                    llo, lhi = self.rng(l)
                    if llo > 0:
                        return op == 'ne'
            return None
        if a[0] == 0 and b[0] == 0:
            (al, ah), (bl, bh) = self.rng(a), self.rng(b)
            if min(al, bl) >= 0 and max(ah, bh) < 1 << bits:
                if op in ('ugt', 'uge'):
                    op, al, ah, bl, bh = ('ult' if op == 'ugt' else 'ule'), bl, bh, al, ah
                if op == 'ult':
                    return True if ah < bl else False if al >= bh else None
                if op == 'ule':
                    return True if ah <= bl else False if al > bh else None
        return None


def run(ck):
    p = ir.load('f32')
    L = Layout(p)
    n = 0
    for name, up in (('align_up', True), ('align_down', False)):
        for f in fns(p, 'pe_utils::' + name) or p.named(name):
            n += 1
            bad = []
            for k in range(32):
                s = Sum(p, f, {1: C(1 << k, 32)})
                if s.rets and 1 << k > ((1 << tbits(s.rets[0][0])) - 1) // 2 + 1:
                    continue
                x = s.e.argterm(f.args[0]['id'])
                if s.throws or not aligned(s, x, k, up):
                    bad.append(k)
            ck.ob(not bad, '%s(%s)' % (name, f.params[0]), f.where, 'is not the %s multiple of the alignment for alignment 2^%s' % ('next' if up else 'previous', bad[:3]))
    cls = 'pe_bliss::section'
    h = L.at(cls, 'header_')[0]
    ld = lambda m: ('ld', 32, ('arg', 0), (h + L.at('image_section_header', m)[0], ()), 'init', 'v')
    RS = ld('SizeOfRawData')
    mi = L.at('image_section_header', 'Misc')[0]
    VS = ('ld', 32, ('arg', 0), (h + mi, ()), 'init', 'v')
    for f in fns(p, 'section::get_aligned_raw_size'):
        n += 1
        bad = []
        for k in range(32):
            s = Sum(p, f, {1: C(1 << k, 32)}, lambda e, st: [('ne', RS, C(0, 32))])
            ok = aligned(s, RS, k, True, {RS: False}) and not s.throws
            s = Sum(p, f, {1: C(1 << k, 32)}, lambda e, st: [('eq', RS, C(0, 32))])
            ok = ok and zero(s)
            if not ok:
                bad.append(k)
        ck.ob(not bad, 'section::get_aligned_raw_size', f.where, 'is not the raw size rounded up to the alignment 2^%s' % bad[:3])
    for f in fns(p, 'section::get_aligned_virtual_size'):
        n += 1
        bad = []
        for k in range(32):
            ok = True
            for vz, x, asm in ((False, VS, {VS: False}), (True, RS, {VS: True, RS: False})):
                s = Sum(p, f, {1: C(1 << k, 32)}, lambda e, st: [('eq' if z else 'ne', v, C(0, 32)) for v, z in asm.items()])
                ok = ok and aligned(s, x, k, True, asm) and not s.throws
            s = Sum(p, f, {1: C(1 << k, 32)}, lambda e, st: [('eq', v, C(0, 32)) for v in (VS, RS)])
            ok = ok and zero(s, {VS: True, RS: True}, VS)
            if not ok:
                bad.append(k)
        ck.ob(not bad, 'section::get_aligned_virtual_size', f.where, 'is not the virtual size (or the raw size, if there is none) rounded up to the alignment 2^%s' % bad[:3])
    for f in fns(p, 'pe_utils::is_sum_safe'):
        n += 1
        ok = True
        a, b = [('arg', 32, x['id']) for x in f.args]
        for want in ('yes', 'no'):
            def asm(e, st):
                c = e.ctx(st.node)
                x, y = e.lz(c, e.argterm(f.args[0]['id'])), e.lz(c, e.argterm(f.args[1]['id']))
                l = lin.add(lin.add(x, y), lin.const(-0xffffffff))
                if want == 'no':
                    l = lin.add(lin.scale(l, -1), lin.const(1))
                return [('lin', tuple(sorted(l.items(), key=repr)))]
            s = Sum(p, f, assume=asm)
            ok = ok and bool(s.rets) and not s.throws and all(truth(s.e, st, v) == want for v, st, i in s.rets)
        ck.ob(ok, 'pe_utils::is_sum_safe', f.where, 'does not hold exactly for the sums below 2^32')
    for f in fns(p, 'pe_utils::is_power_of_2'):
        n += 1
        bits = tbits(Sum(p, f).e.argterm(f.args[0]['id']))
        bad = []
        for k in [None] + list(range(bits)):
            s = Sum(p, f, {0: C(0 if k is None else 1 << k, bits)})
            if not s.rets or s.throws or any(truth(s.e, st, v) != 'yes' for v, st, i in s.rets):
                bad.append('2^%s' % k)
        s = Sum(p, f)
        x = s.e.argterm(f.args[0]['id'])
        for i in range(1, bits):
            for j in range(i):
                xb = [None] * j + [1] + [0] * (i - j - 1) + [1] + [0] * (bits - i - 1)
                if not s.rets or s.throws or any(kbool(s.e, st, v, x, xb) is not False for v, st, _ in s.rets):
                    bad.append('2^%d+2^%d' % (i, j))
        ck.ob(not bad, 'pe_utils::is_power_of_2', f.where, 'does not hold exactly for zero and the powers of two: %s' % ', '.join(bad[:3]))
    for f in fns(p, 'pe_utils::is_null_terminated'):
        n += 1
        ck.ob(terminated(p, f), 'pe_utils::is_null_terminated(%s)' % f.params[0], f.where, 'can report a terminator that is not within the given length')
    if n < 6:
        raise Broken('P26: only %d helpers found' % n)
    ck.count('functions analysed', n)
    ck.count('alignments', 32)
    ck.level = 'proof'
    ck.trusted = ['clang 18 front end and inliner', 'pv/absint.py, pv/summ.py, the x = Q + R normal form of pv/props/p26.py']
    ck.explanation = ('The returned terms are put into the normal form q*Q + r*R + c over x = Q + R (2^k divides Q, R < 2^k) for each of the 32 alignments, in the cases R = 0 and R > 0, and compared with Q and Q + 2^k; '
                      'the overflow test is decided by linear arithmetic, the power-of-two test on known bits for every position of the two highest bits.')


def aligned(s, x, k, up, assume=None):
    ok = bool(s.rets)
    for zr in ((True,) if k == 0 else (True, False)):
        some = False
        for v, st, i in s.rets:
            F = Form(s.e, st, x, k, zr, assume)
            if not F.live(st.node):
                continue
            some = True
            bits = tbits(v)
            f = F.ev(v)
            if f != F.norm(bits, 1, 0, 0 if zr or not up else 1 << k):
                return False
        ok = ok and some
    return ok


def zero(s, assume=None, x=None):
    for v, st, i in s.rets:
        q = post.Q(s.e, st)
        if v == C(0, 32) or q.eq(v, C(0, 32)):
            continue
        if not all(y == C(0, 32) or q.eq(y, C(0, 32)) for y in zleaves(s, st, v)):
            return False
    return bool(s.rets) and not s.throws


def zleaves(s, st, v):
    """results with every operand known to be zero folded"""
    e = s.e
    q = post.Q(e, st)

    def fold(t, d=0):
        if t[0] != 'c' and d < 12 and tbits(t) > 1 and q.eq(t, C(0, tbits(t))):
            return C(0, tbits(t))
        if t[0] == 'op':
            return e.mkop2(t[2], t[1], fold(t[3], d + 1), fold(t[4], d + 1)) if hasattr(e, 'mkop2') else zop(e, t[2], t[1], fold(t[3], d + 1), fold(t[4], d + 1))
        if t[0] == 'cast':
            return e.mkcast(t[2], t[3], t[1], fold(t[4], d + 1))
        if t[0] == 'cmp' and t[2] in ('eq', 'ne'):
            a, b = fold(t[3], d + 1), fold(t[4], d + 1)
            if a[0] == 'c' and b[0] == 'c':
                return C(int((a == b) == (t[2] == 'eq')), 1)
            return ('cmp', 1, t[2], a, b)
        if t[0] == 'sel':
            c = fold(t[2], d + 1)
            if c[0] == 'c':
                return fold(t[3] if c[1] else t[4], d + 1)
        return t
    if v in e.phi_edges:
        r = []
        for _, x, node in e.phi_edges[v]:
            if any(f[0] in ('eq', 'ne') and len(f) == 3 and fold(('cmp', 1) + tuple(f)) == C(0, 1) for f in node.facts()):
                continue
            r.append(fold(x))
        return r
    return [fold(v)]


def zop(e, op, bits, a, b):
    z = C(0, bits)
    if a == z and op in ('and', 'mul', 'udiv', 'urem', 'shl', 'lshr') or b == z and op in ('and', 'mul'):
        return z
    return e.mkop(op, bits, a, b)


# -- known bits
def kb(e, st, t, x, xb):
    n = tbits(t)
    if t == x:
        return xb
    if t[0] == 'c':
        return [t[1] >> i & 1 for i in range(n)]
    if t[0] == 'cast':
        a = kb(e, st, t[4], x, xb)
        if t[2] == 'zext':
            return a + [0] * (n - len(a))
        if t[2] == 'trunc':
            return a[:n]
        return a + [a[-1]] * (n - len(a))
    if t[0] == 'op':
        a, b = kb(e, st, t[3], x, xb), kb(e, st, t[4], x, xb)
        op = t[2]
        if op == 'and':
            return [0 if 0 in (p, q) else 1 if p == q == 1 else None for p, q in zip(a, b)]
        if op == 'or':
            return [1 if 1 in (p, q) else 0 if p == q == 0 else None for p, q in zip(a, b)]
        if op == 'xor':
            return [None if None in (p, q) else p ^ q for p, q in zip(a, b)]
        if op in ('add', 'sub'):
            c = 0
            if op == 'sub':
                b = [None if q is None else 1 - q for q in b]
                c = 1
            r = []
            for p, q in zip(a, b):
                v = (p, q, c)
                ones, unk = v.count(1), v.count(None)
                r.append((ones & 1) if not unk else None)
                c = 1 if ones >= 2 else 0 if ones + unk < 2 else None
            return r
        if op in ('shl', 'lshr') and None not in b:
            k = sum(v << i for i, v in enumerate(b))
            if k < n:
                return ([0] * k + a)[:n] if op == 'shl' else a[k:] + [0] * k
    return [None] * n


def kbool(e, st, t, x, xb, depth=0):
    if t[0] == 'c':
        return bool(t[1])
    if depth > 12:
        return None
    if t[0] == 'cmp' and tbits(t[3]) > 1:
        a, b = kb(e, st, t[3], x, xb), kb(e, st, t[4], x, xb)
        op = t[2]
        if any(None not in z and p != q for z in ((0,),) for p, q in zip(a, b) if p is not None and q is not None):
            return op == 'ne' if op in ('eq', 'ne') else kcmp(op, a, b)
        if None not in a and a == b:
            return op in ('eq', 'ule', 'uge')
        return kcmp(op, a, b)
    if t[0] == 'op' and t[1] == 1 or t[0] == 'op' and t[2] in ('and', 'or', 'xor') and tbits(t) == 1:
        p, q = kbool(e, st, t[3], x, xb, depth + 1), kbool(e, st, t[4], x, xb, depth + 1)
        if t[2] == 'and':
            return False if p is False or q is False else True if p and q else None
        if t[2] == 'or':
            return True if p or q else False if p is False and q is False else None
        if t[2] == 'xor':
            return None if None in (p, q) else p != q
    if t[0] == 'sel':
        c = kbool(e, st, t[2], x, xb, depth + 1)
        a, b = kbool(e, st, t[3], x, xb, depth + 1), kbool(e, st, t[4], x, xb, depth + 1)
        return a if c is True else b if c is False else a if a == b else None
    if t[0] == 'cast':
        return kbool(e, st, t[4], x, xb, depth + 1)
    if t in e.phi_edges:
        vs = set()
        for _, v, node in e.phi_edges[t]:
            dead = False
            for f in node.facts():
                if f[0] in ('eq', 'ne', 'ule', 'ult') and len(f) == 3 and kbool(e, st, ('cmp', 1) + tuple(f), x, xb, depth + 1) is False:
                    dead = True
            if not dead:
                vs.add(kbool(e, st, v, x, xb, depth + 1))
        return vs.pop() if len(vs) == 1 else None
    return None


def kcmp(op, a, b):
    lo = lambda z: sum((v or 0) << i for i, v in enumerate(z))
    hi = lambda z: sum((1 if v is None else v) << i for i, v in enumerate(z))
    if op in ('ugt', 'uge'):
        op, a, b = ('ult' if op == 'ugt' else 'ule'), b, a
    if op == 'ult':
        return True if hi(a) < lo(b) else False if lo(a) >= hi(b) else None
    if op == 'ule':
        return True if hi(a) <= lo(b) else False if lo(a) > hi(b) else None
    if op in ('eq', 'ne') and lo(a) == hi(a) == lo(b) == hi(b):
        return op == 'eq'
    return None


def terminated(p, f):
    """every way to return true knows an element equal to zero below the length"""
    es = {'char': 1, 'wchar_t': 4, 'unsigned short': 2}.get(f.params[0].replace('const', '').replace('*', '').strip(), None)
    s = Sum(p, f)
    if s.throws or not s.rets:
        return False
    e = s.e
    n = e.argterm(f.args[1]['id'])

    def good(st, facts):
        fs = list(st.node.facts()) + list(facts)
        for x in fs:
            if x[0] != 'eq' or len(x) != 3:
                continue
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if b[0] != 'c' or b[1] != 0:
                    continue
                a = a[4] if a[0] == 'cast' else a
                if a[0] == 'ld' and a[2] == ('arg', 0):
                    sz = tbits(a) // 8
                    c = e.ctx(st.node)
                    if es in (None, sz) and c.entails(lin.add(lin.add(e.lzoff(c, a[3]), e.lz(c, n), 1, -1), lin.const(sz))):
                        return True
        return False

    def walk(t, st, seen):
        if t[0] == 'c':
            return t[1] == 0 or good(st, ())
        if t[0] == 'cast':
            return walk(t[4], st, seen)
        if t in e.phi_edges or t in e.loop_phi:
            if t in seen:
                return True
            for pb, v, node in e.phi_edges.get(t) or e.loop_phi[t]:
                u = st.copy()
                u.node = node
                if not walk(v, u, seen | {t}):
                    return False
            return True
        if t[0] == 'sel':
            q = post.Q(e, st)
            return all(walk(x, q.cond(t[2], val).contra().st, seen) for val, x in ((True, t[3]), (False, t[4])))
        u = post.Q(e, st).cond(t, True).contra()
        return u.impossible() or good(u.st, ())
    return all(walk(v, st, frozenset()) for v, st, i in s.rets)
