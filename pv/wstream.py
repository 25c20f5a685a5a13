"""Where a writer puts what: every write through a computed pointer is assigned to a sequence of records that starts at a known position and has no gaps.

Positions are sums modulo 2^32 of symbolic atoms; what a position becomes around a loop is taken from the variable that carries it: its value before the
loop has to be the position reached there, its value after an iteration the position reached at the end of the iteration (induction over iterations)."""
from . import heap
from .heap import C

M32 = 0xffffffff
STR = ('c_str', 'data', 'begin', 'cbegin')


def last(n):
    return n.split('<')[0].split('::')[-1] if 'operator' not in n else 'operator' + n.split('operator', 1)[1].split('<pe_')[0]


# ---- canonical terms: integers are ('L', {atoms}, constant), independent of association, width of the address arithmetic and time of reading
MEMO = {}
VERSIONED = set()      # objects whose fields are told apart by the time of reading


def lin(t, w):
    k = (t, w)
    if k not in MEMO:
        acc = {}
        n = add(t, w, acc, 1)
        m = (1 << w) - 1
        MEMO[k] = ('L', frozenset((a, c & m) for a, c in acc.items() if c & m), n & m)
    return MEMO[k]


def add(t, w, acc, k):
    n = 0
    while True:
        if t[0] == 'cast' and (t[1] == 'trunc' and t[3] >= w or t[1] in ('zext', 'sext') and t[2] >= min(w, 32) and t[2] > 1):
            t = t[4]
        elif t[0] == 'op' and t[1] == 'shl' and t[4][0] == 'c':
            k, t = k << t[4][1], t[3]
        elif t[0] == 'op' and t[1] == 'mul' and t[4][0] == 'c':
            k, t = k * t[4][1], t[3]
        elif t[0] == 'op' and t[1] == 'mul' and t[3][0] == 'c':
            k, t = k * t[3][1], t[4]
        elif t[0] == 'op' and t[1] == 'sub' and t[3] == C(0, t[2]):
            k, t = -k, t[4]
        else:
            break
    if t[0] == 'c':
        v = t[1]
        if v >> (t[2] - 1) and t[2] > 1:
            v -= 1 << t[2]
        return n + k * v
    if t[0] == 'op' and t[1] in ('add', 'sub'):
        return n + add(t[3], w, acc, k) + add(t[4], w, acc, k if t[1] == 'add' else -k)
    if t[0] == 'op' and t[1] == 'urem' and t[4][0] == 'c' and t[4][1] and t[4][1] & (t[4][1] - 1) == 0:
        t = ('op', 'and', t[2], t[3], C(t[4][1] - 1, t[2]))
    if t[0] == 'op' and t[1] == 'and' and t[4][0] == 'c':
        # masks: x & (2^j - 1), and x without it
        m, c = (1 << t[2]) - 1, t[4][1]
        j = (m ^ c).bit_length()
        if c and m ^ c == (1 << j) - 1 and j:
            n += add(t[3], w, acc, k)
            a = ('low', j, lin(t[3], j))
            acc[a] = acc.get(a, 0) - k
            return n
        if c and c & (c + 1) == 0:
            a = ('low', c.bit_length(), lin(t[3], c.bit_length()))
            acc[a] = acc.get(a, 0) + k
            return n
    if t[0] == 'cast' and t[1] == 'zext' and t[4][0] in ('ld', 'call', 'ret', 'any', 'a') and t[2] > 1:
        t = t[4]
    a = ('op', t[1], t[2], arg(t[3]), arg(t[4])) if t[0] == 'op' else canon(t)
    acc[a] = acc.get(a, 0) + k
    return n


def canon(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t in MEMO:
        return MEMO[t]
    r = canon1(t)
    MEMO[t] = r
    return r


def canon1(t):
    k = t[0]
    if k == 'any':
        return t[1] if t[1][0] in ('iter', 'rec') else ('any', t[1])
    if k == 'a':
        return ('a', t[1])
    if k == 'c':
        return lin(t, t[2])
    if k == 'ld':
        if t[1] in VERSIONED:
            return ('ld', t[1], off(t[2]), t[3], t[4])
        return ('ld', ('ref', canon(t[4])) if t[1] == ('val',) else where(t[1]), off(t[2]), t[3])
    if k in ('call', 'ret'):
        a = tuple(ptr(x) if j == 0 and x[0] in ('call', 'ret') and heap.bits(x) == 64 else arg(x) for j, x in enumerate(t[2]))
        if len(a) == 1 and last(t[1]) in ('length', 'size'):
            return ('n', a[0])
        return ('call', t[1], a)
    if k == 'p':
        return ('p', where(t[1]), off(t[2]))
    if k == 'op':
        if t[1] in ('add', 'sub', 'mul', 'shl') or t[1] in ('and', 'urem') and t[4][0] == 'c' and not (t[1] == 'urem' and t[4][1] & (t[4][1] - 1)):
            return lin(t, t[2])
        return ('op', t[1], t[2], arg(t[3]), arg(t[4]))
    if k == 'cast':
        return ('cast', t[1], t[2], t[3], arg(t[4]))
    if k == 'cmp':
        return ('cmp', t[1], arg(t[2]), arg(t[3]))
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def ptr(t):
    return canon(t) if t[0] == 'p' else ('p', ('ref', canon(t)), 0)


def arg(t):
    if not isinstance(t, tuple):
        return t
    if t[0] in ('any', 'a', 'c', 'ld', 'op', 'cast', 'call'):
        return lin(t, min(heap.bits(t) or 64, 64)) if t[0] != 'cmp' else canon(t)
    return canon(t)


def where(b):
    if b[0] == 'ref':
        return ('ref', canon(b[1]))
    if b[0] == 'agg':
        return ('ref', canon(b[1]))
    return b


def off(o):
    if isinstance(o, int):
        return o
    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], tuple):
        return lin(heap.offterm(o), 32)
    return o


def plus(a, b, k=1, w=32):
    """sum of two linear terms"""
    m = (1 << w) - 1
    d = dict(a[1])
    for x, c in (b[1] if isinstance(b, tuple) else ()):
        d[x] = (d.get(x, 0) + k * c) & m
    return ('L', frozenset((x, c & m) for x, c in d.items() if c & m), (a[2] + k * (b[2] if isinstance(b, tuple) else b)) & m)


def const(a):
    """signed value when a is a constant"""
    if a[1]:
        return None
    return a[2] - (1 << 32) if a[2] >> 31 else a[2]


def num(n):
    return ('L', frozenset(), n & M32)


def narrow(t, w):
    m = (1 << w) - 1
    return ('L', frozenset((a, c & m) for a, c in t[1] if c & m), t[2] & m)


def subst(t, E):
    """a canonical term about the object at argument 0, about the object E = (base, offset)"""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('ld',) and t[1] == ('arg', 0) and isinstance(t[2], int):
        return ('ld', E[0], t[2] + E[1], t[3])
    if t[:1] == ('p',) and t[1] == ('arg', 0) and isinstance(t[2], int):
        return ('p', E[0], t[2] + E[1])
    if t[:1] == ('L',):
        return ('L', frozenset((subst(a, E), c) for a, c in t[1]), t[2])
    return tuple(subst(x, E) for x in t)


def bases(t, r):
    """objects whose fields a canonical term mentions: (base, offset)"""
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t[:1] in (('ld',), ('p',)) and len(t) in (3, 4) and isinstance(t[2], int):
            r.add((t[1], t[2]))
        for x in t:
            bases(x, r)
    return r


def say(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == 'L':
        s = ' + '.join((say(a) if c == 1 else '%s * %d' % (say(a), c) if c < 1 << 31 else '-' + say(a)) for a, c in sorted(t[1], key=repr))
        n = t[2]
        return (s + (' + %d' % n if n else '')) if s else str(n)
    if k == 'n':
        return 'length(%s)' % say(t[1])
    if k == 'call':
        return '%s(%s)' % (last(t[1])[:30], ', '.join(say(x) for x in t[2]))
    if k == 'ld':
        return 'field %s of %s' % (say(t[2]), say(t[1]))
    if k == 'p':
        return say(t[1]) + ('+%s' % say(t[2]) if t[2] else '')
    if k == 'a':
        return 'argument %d' % t[1]
    if k in ('arg', 'loc'):
        return '%s %s' % (k, t[1])
    if k == 'ref':
        return say(t[1])
    if k == 'iter':
        return 'iterations'
    if k == 'rec':
        return 'running position'
    if k == 'op':
        return '(%s %s %s)' % (say(t[3]), t[1], say(t[4]))
    if k == 'cast':
        return say(t[4])
    return k


# ---- places
def place(d):
    """(space, position) of a destination or source pointer"""
    t, o = d[1][1], lin(heap.offterm(d[2]), 32)
    if t[0] in ('call', 'ret'):
        n = last(t[1])
        a = t[2]
        if n in ('operator[]', 'at') and len(a) >= 2:
            return ptr(a[0]), plus(lin(a[1], 32), o)
        if n in STR:
            return ptr(a[0]), o
        if n.startswith('section_data_from_rva') and len(a) >= 2:
            return ('image',), plus(lin(a[1], 32), o)
    return canon(t), o


def text(q):
    """the string whose characters a pointer points to (from their start), or None"""
    if q[1][0] == 'ref' and q[2] == 0 and q[1][1][0] in ('call', 'ret'):
        t = q[1][1]
        n = last(t[1])
        if n in STR:
            return ptr(t[2][0])
        if n in ('operator[]', 'at') and len(t[2]) >= 2 and const(lin(t[2][1], 32)) == 0:
            return ptr(t[2][0])
    return None


def length_plus(loc, n):
    return ('L', frozenset([(('n', loc), 1)]), n)


class Piece(object):
    """part of a write: position, size (int or linear term), kind ('v' value | 't' text | 'z' zeroes | '?'), what"""
    __slots__ = ('sp', 'at', 'n', 'kind', 'what', 'loc', 'idx')

    def __init__(self, sp, at, n, kind, what, loc, idx):
        self.sp, self.at, self.n, self.kind, self.what, self.loc, self.idx = sp, at, n, kind, what, loc, idx


def pieces(P, idx):
    i, d, n, src, s = P.writes[idx]
    sp, at = place(d)
    loc = i.loc
    k = n[1] if n[0] == 'c' else None
    sz = k if k is not None else lin(n, 32)
    if src[0] == 'value':
        v = src[1]
        if v[0] == 'c' and v[1] == 0:
            return [Piece(sp, at, k, 'z', 0, loc, idx)]
        return [Piece(sp, at, k, 'v', v, loc, idx)]
    if src[0] == 'fill':
        if src[1][0] == 'c' and src[1][1] & 0xff == 0:
            return [Piece(sp, at, sz, 'z', 0, loc, idx)]
        return [Piece(sp, at, sz, '?', 'a fill', loc, idx)]
    q = src[1]
    t = text(q)
    if t is not None:
        return [Piece(sp, at, sz, 't', t, loc, idx)]
    if k in (1, 2, 4, 8) and isinstance(q[2], int):
        v = P.load(s, q, k, None)
        if v[0] in ('op', 'cast', 'ld', 'c', 'call', 'a') or v[0] == 'any' and v[1][0] in ('iter', 'rec'):
            return [Piece(sp, at, k, 'z' if v[0] == 'c' and v[1] == 0 else 'v', v, loc, idx)]
    if k is not None and isinstance(q[2], int):
        cells = sorted((o - q[2], z, v) for (b, o), (z, v) in s.mem.items() if b == q[1] and isinstance(o, int) and q[2] <= o and o + z <= q[2] + k)
        if cells and sum(c[1] for c in cells) == k:
            r = []
            for o, z, v in cells:
                r.append(Piece(sp, plus(at, o), z, 'z' if v[0] == 'c' and v[1] == 0 else 'v', v, loc, idx))
            return r
    return [Piece(sp, at, sz, '?', q, loc, idx)]


# ---- what a part of a record has to be
class Val(object):
    def ok(self, W, pc, E):
        """objects E for which the piece is right (None: whatever the object)"""
        return [E]


class Get(Val):
    def __init__(self, cls, g):
        self.cls, self.g = cls, g

    def ok(self, W, pc, E):
        if pc.kind not in 'vz':
            return []
        w = 8 * pc.n
        got = lin(pc.what, w) if pc.kind == 'v' else num(0)
        return W.objects(got, [lin(t, w) for t in W.getter(self.cls, self.g)], E)

    def __str__(self):
        return self.g


class Elem(Val):
    """the element of a list of numbers itself"""

    def __init__(self, size, conv=None):
        self.size, self.conv = size, conv

    def ok(self, W, pc, E):
        if pc.kind != 'v':
            return []
        got = lin(pc.what, 8 * pc.n)
        if self.conv:
            got = self.conv(W, got)
            if got is None:
                return []
        return W.objects(got, [('L', frozenset([(('ld', ('arg', 0), 0, self.size), 1)]), 0)], E)

    def __str__(self):
        return 'the element'


class Text(Val):
    """the characters of a string and its terminator (extra bytes beyond the characters)"""

    def __init__(self, cls, g, extra=1):
        self.cls, self.g, self.extra = cls, g, extra

    def ok(self, W, pc, E):
        if pc.kind != 't':
            return []
        r = []
        for t in W.getter(self.cls, self.g):
            t = canon(t)
            if t[0] == 'p' and isinstance(pc.what, tuple) and pc.what[0] == 'p' and t[1] == ('arg', 0):
                e = (pc.what[1], pc.what[2] - t[2])
                if (E is None or e == E) and pc.n == length_plus(pc.what, self.extra):
                    r.append(e)
        return r

    def __str__(self):
        return '%s and its terminator' % self.g


class Zero(Val):
    def ok(self, W, pc, E):
        return [E] if pc.kind == 'z' else []

    def __str__(self):
        return '0'


class Count(Val):
    def __init__(self, cls, g, f=None, name=None):
        self.cls, self.g, self.f, self.name = cls, g, f, name

    def ok(self, W, pc, E):
        if pc.kind != 'v':
            return []
        w = 8 * pc.n
        r = []
        for t in W.getter(self.cls, self.g):
            t = canon(t)
            want = length_plus(t, 0)
            got = lin(pc.what, w)
            for f in ([self.f] if self.f else [lambda W, x: [x]]):
                for x in f(W, want):
                    r += W.objects(got, [narrow(x, w)], E)
        return r

    def __str__(self):
        return self.name or 'the number of ' + self.g


class Term(Val):
    """one of given values: fn(W) -> canonical numbers"""

    def __init__(self, fn, name):
        self.fn, self.name = fn, name

    def ok(self, W, pc, E):
        if pc.kind not in 'vz':
            return []
        w = 8 * pc.n
        got = lin(pc.what, w) if pc.kind == 'v' else num(0)
        return [E] if any(narrow(x, w) == got for x in self.fn(W)) else []

    def __str__(self):
        return self.name


class Bits(Val):
    """equal bit by bit to a reported value"""

    def __init__(self, cls, g):
        self.cls, self.g = cls, g

    def ok(self, W, pc, E):
        if pc.kind != 'v':
            return []
        return W.bitwise(pc.what, self.cls, self.g, 8 * pc.n, E)

    def __str__(self):
        return self.g


class Pos(Val):
    """where a record of another sequence is: how(W, value, position) tells; same object unless same is given"""

    def __init__(self, stream, how, name, kind=None):
        self.stream, self.how, self.name, self.kind = stream, how, name, kind

    def ok(self, W, pc, E):
        shape = getattr(self.how, 'shape', None)
        return [E] if shape is None or shape(W, pc) else []

    def __str__(self):
        return self.name


class Carry(Pos):
    """where the records of another sequence about this object begin: what its position was when the iteration began; or another value when that is right"""

    def __init__(self, stream, how, name, other=None):
        Pos.__init__(self, stream, how, name)
        self.other = other

    def ok(self, W, pc, E):
        return [E]

    def here(self, W, r, got):
        if self.other is not None:
            x = self.other(W, r, got)
            if x is not None:
                return x
        for kk in W.choices.get((self.stream, r.loop), ()):
            for k, cur, ent in W.ctx.visit.get(('in', r.loop), ()):
                if k == kk and k is not None and self.how(W, got, lin(cur, 32)):
                    return True
        return False


class Or(Val):
    def __init__(self, *vs):
        self.vs = vs

    def ok(self, W, pc, E):
        r = []
        for v in self.vs:
            for e in v.ok(W, pc, E):
                if e not in r:
                    r.append(e)
        return r

    def __str__(self):
        return ' or '.join(str(v) for v in self.vs)


class Check(Val):
    def __init__(self, fn, name):
        self.fn, self.name = fn, name

    def ok(self, W, pc, E):
        return self.fn(W, pc, E)

    def __str__(self):
        return self.name


class Kind(object):
    def __init__(self, name, parts, size=None, over=None, cond=()):
        """over: the list the object comes from; cond: (class, reporting function, truth) about the object"""
        self.name, self.parts, self.size, self.over, self.cond = name, dict((o, (n, v)) for o, n, v in parts), size, over, cond
        if size is None:
            self.size = sum(n for o, n, v in parts if n is not None)


class Stream(object):
    def __init__(self, name, kinds, start=None, space='raw', end=None, what='', once=False, must=False, fresh=False, ref=None, align=None):
        self.ref = ref           # argument that points to the position, which recursive calls take further
        self.align = align       # every record begins at a multiple of this
        self.fresh = fresh       # begins anew in every iteration of the outermost loop
        self.must = must         # written on every path that returns
        self.once = once         # a single record
        self.name, self.kinds, self.start, self.space, self.end, self.what = name, kinds, start, space, end, what or name


DONE = 'done'


class Rec(object):
    __slots__ = ('stream', 'kind', 'E', 'pos', 'loop', 'ev', 'val', 'n')

    def __init__(self, stream, kind, E, pos, loop, ev, val, n):
        self.stream, self.kind, self.E, self.pos, self.loop, self.ev, self.val, self.n = stream, kind, E, pos, loop, ev, val, n


class Alt(object):
    """a possible position of a sequence: position, variables chosen at loops, records so far, parts of the open record"""
    __slots__ = ('pos', 'choice', 'recs', 'part', 'cand', 'start')

    def __init__(self, pos, choice=(), recs=(), part=(), cand=None, start=None):
        self.pos, self.choice, self.recs, self.part, self.cand, self.start = pos, choice, recs, part, cand, start


class Writer(object):
    """simulates the sequences of one function over all its paths"""

    def __init__(self, P, f, section, view, raw='get_raw_data'):
        self.memo = {}
        self.P, self.f, self.section, self.view, self.raw = P, f, section, view, raw
        self.pc = {}
        self.bad = {}            # message key -> (location, message)
        self.got = set()         # (stream, kind) seen
        self.choices = {}        # (stream, loop) -> set of variables that carry the position
        self.ends = []           # (loop or None, state, {stream: records})
        c = f.cfg()
        self.loops = dict((h, c.loops[h]) for h in c.loops)

    def inner(self, b):
        hs = [h for h in self.loops if b in self.loops[h]]
        return min(hs, key=lambda h: len(self.loops[h])) if hs else None

    def getter(self, cls, g):
        V = self.view(cls)
        if V is None or g not in V.get:
            return []
        return [v for c, v in V.get[g] if v is not None]

    def objects(self, got, wants, E):
        r = []
        for w in wants:
            if E is not None:
                if subst(w, E) == got and E not in r:
                    r.append(E)
                continue
            offs = set(o for b, o in bases(w, set()) if b == ('arg', 0))
            if not offs and w == got:
                r.append(None)
            for b, o in bases(got, set()):
                for go in offs:
                    if subst(w, (b, o - go)) == got and (b, o - go) not in r:
                        r.append((b, o - go))
        return r

    def bitwise(self, v, cls, g, w, E):
        from . import prov
        from .bitv import same
        r = []
        cs = [E] if E is not None else sorted(bases(canon(v), set()), key=repr)
        for t in self.getter(cls, g):
            for e in cs:
                if e is None or e in r:
                    continue
                a, b = plain(canon(v)), plain(subst(canon(t), e))
                if a == b:
                    r.append(e)
                    continue
                x, y = rebase(v, None), rebase(t, e)
                try:
                    if x is not None and y is not None and same(heap.mkcast('trunc', heap.bits(x), w, x) if heap.bits(x) > w else x, heap.mkcast('trunc', heap.bits(y), w, y) if heap.bits(y) > w else y):
                        r.append(e)
                except (KeyError, IndexError, TypeError):
                    pass
        return r

    # -- lists and their elements
    def container(self, E, s=None):
        """(list the object is an element of, loop that runs over it)"""
        s = s or self.ctx
        b, o = E
        if b[0] != 'ref' or o or b[1][0] != 'call':
            return None, None
        n, a = last(b[1][1]), b[1][2]
        if n in ('operator*', 'operator->') and a and a[0][0] == 'p':
            for k in s.visit:
                if isinstance(k, tuple) and k[0] == 'in':
                    for kk, cur, ent in s.visit[k]:
                        if kk == ('m', (a[0][1], a[0][2])) and ent[0] in ('call', 'ret') and last(ent[1]) in ('begin', 'cbegin') and len(ent[2]) == 1:
                            return ptr(ent[2][0]), k[1]
        if n in ('operator[]', 'at') and len(a) == 2 and a[1][0] == 'L' and len(a[1][1]) == 1 and a[1][2] == 0:
            (x, c), = a[1][1]
            if c == 1 and x[0] == 'iter':
                return a[0], x[1]
        return None, None

    def over(self, what, E):
        if isinstance(what, tuple) and what[0] == 'obj' and len(what) == 2:
            return E == (('arg', what[1]), 0)
        c, h = self.container(E)
        return c is not None and self.islist(what, c)

    def islist(self, what, c):
        if isinstance(what, list):
            return any(self.islist(w, c) for w in what)
        if callable(what):
            return what(self, c)
        if what[0] == 'obj':
            return any(c == subst(canon(t), (('arg', what[1]), 0)) for t in self.getter(self.objcls[what[1]], what[2]))
        if what[0] == 'arg':
            return c == ('p', what, 0)
        for t in self.getter(*what):
            t = canon(t)
            if t[0] == 'p' and c[0] == 'p' and t[1] == ('arg', 0):
                e = (c[1], c[2] - t[2])
                if e[0][0] != 'ref' or self.container(e)[0] is not None:
                    return True
        return False

    def leaf(self, c):
        pol = True
        while True:
            if c[0] == 'op' and c[1] == 'xor' and c[4] == C(1, c[2]):
                c, pol = c[3], not pol
            elif c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3][0] == 'c' and (c[3][1] == 0 or c[3][1] == 1 and heap.bits(c[2]) == 1):
                pol = pol if (c[1] == 'ne') == (c[3][1] == 0) else not pol
                c = c[2]
            elif c[0] == 'cast' and c[1] in ('zext', 'trunc') or c[0] == 'op' and c[1] == 'and' and c[4][0] == 'c' and c[4][1] == 1:
                c = c[4] if c[0] == 'cast' else c[3]
            else:
                return c, pol

    def truth(self, s, cls, g, E, lo=0):
        r = set()
        for t in self.getter(cls, g):
            w, wp = self.leaf(t)
            w = subst(canon(w), E)
            for c in s.conds[lo:]:
                x, p = self.leaf(c)
                if canon(x) == w:
                    r.add(p == wp)
                elif x[0] in ('call', 'ret') and last(x[1]) == g and cls == x[1].split('::')[-2] and len(x[2]) == 1 and ptr(x[2][0]) == ('p',) + E:
                    r.add(p)
        return r.pop() if len(r) == 1 else None

    def element(self, s, h, what):
        """the current element of the list in question in loop h"""
        for kk, cur, ent in s.visit.get(('in', h), ()):
            if kk[0] == 'm' and ent[0] in ('call', 'ret') and last(ent[1]) in ('begin', 'cbegin') and len(ent[2]) == 1 and self.islist(what, ptr(ent[2][0])) and self.moves(h, kk):
                return kk[1]
        return None

    def moves(self, h, kk):
        """the cell is changed in the loop"""
        k = ('moves', h, kk)
        if k not in self.memo:
            xs = [(cur, nxt) for s in self.P.backs.get(h, ()) for c, cur, nxt in s.visit.get(('nx', h), ()) if c == kk]
            self.memo[k] = not xs or any(cur != nxt for cur, nxt in xs)
        return self.memo[k]

    # -- events of a path
    def events(self, s):
        ev = []
        for k in s.visit:
            if isinstance(k, tuple) and k[0] == 'at':
                n = s.visit[k]
                ev.append((n[2], n[1] - 0.5, n[0], ('in', k[1])))
        ev += [(len(self.P.seen[j][3].visit.get('wlog', ())), q, 0, ('call', j, b)) for q, (b, j) in enumerate(s.visit.get('log', ())) if self.P.seen[j][1] is self.f]
        ev.sort(key=lambda x: x[:3])
        out = []
        j = 0
        log = s.visit.get('wlog', ())
        for m, (b, k) in enumerate(log):
            while j < len(ev) and ev[j][0] <= m:
                out.append(ev[j][3])
                j += 1
            if k not in self.pc:
                self.pc[k] = pieces(self.P, k)
            for p in self.pc[k]:
                out.append(('w', p, b))
        out += [e[3] for e in ev[j:]]
        return out

    def insp(self, st, sp):
        if st.space == 'raw':
            return self.raw in repr(sp) and (self.section is None or repr(self.section) in repr(sp))
        if callable(st.space):
            return st.space(sp)
        return sp[0] == st.space

    def run(self, streams):
        ends = [(None, s) for v, s in self.P.rets]
        for h, L in sorted(self.P.backs.items()):
            ends += [(h, s) for s in L]
        n = 0
        starts = []
        self.startof = {}
        self.endof = {}           # return path -> sequence -> alternatives
        for h, s in ends:
            self.ctx = s
            evs = self.events(s)
            recs, claimed = {}, set()
            self.known, self.starts = recs, {}
            for st in streams:
                best = self.stream(st, [e for e in evs if e[0] != 'w' or id(e[1]) not in claimed], s, h)
                if best is None:
                    continue
                recs[st.name] = best[0]
                self.starts[st.name] = best[2]
                claimed |= best[1]
            for e in evs:
                if e[0] == 'w' and id(e[1]) not in claimed:
                    self.stray(e[1], streams)
            self.ends.append((h, s, recs))
            starts.append(self.starts)
            self.startof[id(s)] = self.starts
            n += 1
        for (h, s, recs), self.starts in zip(self.ends, starts):
            self.ctx = s
            self.known = recs
            for st in streams:
                for r in recs.get(st.name, ()):
                    if r.loop == h:
                        self.positions(st, r, recs, h)
                        self.conditions(st, r, s)
        for (st, h), c in sorted(self.choices.items(), key=repr):
            if not c:
                self.fail(st, self.f.raw.get('loc') or self.f.dem, 'the position of the next record is not the end of the last one')
        return n

    def positions(self, st, r, recs, h):
        for o, (z, v) in sorted(r.kind.parts.items()):
            if not isinstance(v, Pos):
                continue
            pc = r.val[o]
            got = lin(pc.what, 8 * pc.n) if pc.kind == 'v' else num(0)
            ok = False
            for q in recs.get(v.stream, ()):
                if q.loop == r.loop and (r.E is None or q.E is None or q.E == r.E) and v.how(self, got, q.pos) and (v.kind is None or q.kind.name == v.kind):
                    if r.E is None:
                        r.E = q.E
                    ok = True
                    break
            if isinstance(v, Carry):
                ok = v.here(self, r, got)
            if not ok:
                self.fail(st.name + ': ' + r.kind.name, pc.loc, '%s: %s is written where %s belongs' % (r.kind.name, say(got), v.name))

    def conditions(self, st, r, s):
        for cls, g, want in r.kind.cond:
            if r.E is None or self.truth(s, cls, g, r.E) is not want:
                self.fail(st.name + ': ' + r.kind.name, list(r.val.values())[0].loc, '%s is written although %s is not known to be %s' % (r.kind.name, g, str(want).lower()))

    def each(self, what, names, skip=None):
        """the loop that writes records of the given kinds about the elements of a list treats each of them once; returns (loops, [(location, message)])"""
        hs = set()
        for h, s, recs in self.ends:
            self.ctx = s
            for L in recs.values():
                for r in L:
                    if r.kind.name in names and r.loop is not None and r.E is not None and self.over(what, r.E):
                        hs.add(self.container(r.E)[1])
        bad = []
        for h in hs:
            bad += [(None, m) for m in self.taken(h, what)]
            for g, s, recs in self.ends:
                self.ctx = s
                if ('in', h) not in s.visit or g != h:
                    continue
                loc = self.element(s, h, what)
                n = sum(1 for L in recs.values() for r in L if r.kind.name in names and (r.loop == h or self.inner_of(r.loop, h)) and r.E is not None and self.container(r.E)[1] == h)
                if n != 1 and not (n == 0 and skip and skip(self, s, h, loc)):
                    bad.append((None, 'an element is written %d times' % n))
        outer = [h for h in hs if not any(self.inner_of(h, g) for g in self.loops)]
        if outer:
            for v, s in self.P.rets:
                if not any(('in', h) in s.visit for h in outer):
                    self.ctx = s
                    if not any(c[0][0] in ('call', 'ret') and last(c[0][1]) == 'empty' and c[1] and self.islist(what, ptr(c[0][2][0])) for c in [self.leaf(c) for c in s.conds]):
                        bad.append((None, 'the elements are not written'))
                        break
        return hs, bad

    def taken(self, h, what):
        """[] when the loop takes every element of the list, one after the other"""
        bad = set()
        old = self.ctx
        for g, s in [(None, s) for v, s in self.P.rets] + [(g, s) for g, L in self.P.backs.items() for s in L]:
            if ('in', h) not in s.visit:
                continue
            self.ctx = s
            loc = self.element(s, h, what)
            e = s.visit.get(('end', h))
            if e is not None and not any(self.atend(c, loc, h, s, what) for c in e[0]):
                bad.add('the list is left before its end')
            if g == h and loc is not None:
                m = [j for b, j in s.visit.get('log', ())[s.visit[('at', h)][1]:] if self.P.seen[j][2] and self.P.aspt(self.P.seen[j][2][0])[1:] == loc]
                if len(m) != 1 or not last(self.P.seen[m[0]][1].name).startswith('operator++'):
                    bad.add('the elements are not taken one after the other')
        self.ctx = old
        return sorted(bad)

    def inner_of(self, g, h):
        return g is not None and g != h and self.loops[g] <= self.loops[h]

    def atend(self, c, loc, h, s, what):
        x, pol = self.leaf(c)
        if loc is None:
            # counted loop
            return x[0] == 'cmp' and any(self.counts(arg(y), what) for y in x[2:4])
        if x[0] not in ('call', 'ret') or last(x[1])[:10] not in ('operator!=', 'operator==') or (last(x[1])[:10] == 'operator!=') == pol:
            return False
        a = [self.P.aspt(y)[1:] for y in x[2] if isinstance(y, tuple) and y[0] == 'p']
        if loc not in a or len(a) != 2:
            return False
        y = a[0] if a[1] == loc else a[1]
        vs = [v for k, u, w in s.visit.get(('in', h), ()) + s.visit.get(('nx', h), ()) if k == ('m', y) for v in (u, w)] + [self.P.load(s, ('p',) + y, 8, None)]
        return any(v[0] in ('call', 'ret') and last(v[1]) in ('end', 'cend') and self.islist(what, ptr(v[2][0])) for v in vs)

    def counts(self, t, what):
        return t[0] == 'L' and any(a[0] == 'n' and self.islist(what, a[1]) for a, c in t[1] if isinstance(a, tuple))

    def stray(self, pc, streams):
        self.fail('stray', pc.loc, 'writes %s at %s, which is no place of the format' % (self.what(pc), say(pc.at)))

    def what(self, pc):
        if pc.kind == 'z':
            return 'zeroes'
        if pc.kind == 't':
            return 'the text %s' % say(pc.what)
        return say(canon(pc.what)) if pc.kind == 'v' else 'something'

    def fail(self, k, loc, msg):
        self.bad.setdefault(k, (loc, msg))

    # -- one sequence on one path
    def stream(self, st, evs, s, h):
        if st.start is None:
            alts = [Alt(None)]
        else:
            ss = st.start(self)
            if ss is None:
                return (), set(), None
            alts = [Alt(p, start=p) for p in ss]
        why = None
        at = {}
        for n, e in enumerate(evs):
            if e[0] == 'in':
                alts = self.enter(alts, e[1], s)
                at[e[1]] = n
                continue
            if e[0] == 'call':
                if st.ref is not None:
                    new = [x for x in (self.goon(st, a, e, n, s) for a in alts) if x is not None]
                    if not new:
                        self.fail(st.name, self.P.seen[e[1]][0].loc, 'the records of what is below do not continue where the last record ends')
                        return None
                    alts = new
                continue
            pc, b = e[1], e[2]
            if not self.insp(st, pc.sp):
                continue
            new = []
            for a in alts:
                r, w = self.accept(st, a, pc, b, n)
                if w and why is None:
                    why = (pc.loc, w)
                new += r
            if not new:
                self.fail(st.name, why[0] if why else pc.loc, why[1] if why else 'no position fits')
                return None
            alts = new
        # the end of the path
        if h is not None:
            alts2 = []
            for a in alts:
                if self.backs(a, h, s) or st.fresh and dict(a.choice).get(h) is None and not any(self.inner_of(h, g) for g in self.loops):
                    alts2.append(a)
            if not alts2:
                a = max(alts, key=lambda a: len(a.recs))
                self.fail(st.name, self.where(a), self.gap(a, h, s))
                return None
            alts = alts2
        m = max(len(a.recs) for a in alts)
        best = [a for a in alts if len(a.recs) == m]
        if any(not a.part for a in best):
            best = [a for a in best if not a.part]
        elif h is None or any(self.inner(x[2]) == h for a in best for x in a.part):
            a = best[0]
            self.fail(st.name, a.part[0][1].loc, 'a record is left incomplete after %s' % ', '.join(self.what(x[1]) for x in a.part))
        best.sort(key=lambda a: sum(1 for g, c in a.choice if c is None))
        for g in at:
            c = set(dict(a.choice).get(g) for a in best)
            k = (st.name, g)
            if m:
                self.choices[k] = self.choices[k] & c if k in self.choices else c
        a = best[0]
        for r in a.recs:
            self.got.add((st.name, r.kind.name))
        if h is None and st.ref is not None and a.pos is not None and a.pos != lin(self.P.load(s, ('p', ('arg', st.ref), 0), 4, None), 32):
            self.fail(st.name, self.where(a), 'the position handed back is not the end of the last record')
        if h is None and st.must and not a.recs:
            self.fail(st.name, self.f.raw.get('loc') or self.f.dem, '%s is not written' % st.name)
        if h is None and st.end and a.start is not None and not (a.recs and a.recs[-1].kind.name in st.end):
            self.fail(st.name, self.where(a), 'the last record is not %s' % ' or '.join(st.end))
        if h is None:
            self.endof.setdefault(id(s), {})[st.name] = best
        return a.recs, set(id(p) for r in a.recs for p in r.val.values()) | set(id(x[1]) for x in a.part), a.start

    def goon(self, st, a, e, n, s):
        """after a recursive call"""
        i, f, args, st0 = self.P.seen[e[1]]
        b = ('arg', st.ref)
        if a.part or args[st.ref] != ('p', b, 0):
            return None
        pre = lin(self.P.load(st0, ('p', b, 0), 4, None), 32)
        if a.pos is not None and a.pos != pre:
            return None
        post = [dict(h)[b] for j, h in s.visit.get('after', ()) if j == e[1]]
        if len(post) != 1:
            return None
        r = Rec(st.name, Kind('below', [], size=0), self.below(args), pre, self.inner(e[2]), (n, (e[2],)), {}, None)
        return Alt(lin(('ld', b, 0, 4, post[0]), 32), a.choice, a.recs + (r,), (), None, pre if a.start is None else a.start)

    def below(self, args):
        return None

    def extent(self, s, name):
        """(start, end) of a sequence on a path that returns"""
        for a in self.endof.get(id(s), {}).get(name, ()):
            if a.start is None or not (a.recs or a.choice):
                continue
            if all(c in self.choices.get((name, g), (c,)) for g, c in a.choice):
                return a.start, plus(a.recs[-1].pos, a.recs[-1].n) if a.pos == DONE else a.pos
        return None

    def where(self, a):
        return list(a.recs[-1].val.values())[0].loc if a.recs and a.recs[-1].val else (self.f.raw.get('loc') or self.f.dem)

    def enter(self, alts, h, s):
        out = []
        for a in alts:
            out.append(Alt(a.pos, a.choice + ((h, None),), a.recs, a.part, a.cand, a.start))
            for kk, cur, ent in s.visit.get(('in', h), ()):
                if not isinstance(cur, tuple) or cur[0] not in ('op', 'any', 'cast', 'a', 'c', 'ld') or heap.bits(ent) not in (32, 64) or ent[0] not in ('op', 'any', 'cast', 'a', 'c', 'ld'):
                    continue
                if heap.bits(ent) == 64 and ent[0] in ('ld', 'any'):
                    continue
                e = lin(ent, 32)
                if a.pos is None and e[1] or a.pos == e:
                    out.append(Alt(lin(cur, 32), a.choice + ((h, kk),), a.recs, a.part, a.cand, e if a.start is None else a.start))
        return out

    def backs(self, a, h, s):
        kk = dict(a.choice).get(h)
        if kk is None:
            # nothing of this sequence is written around the loop
            return not any(r.ev is not None and self.within(r, h) for r in a.recs) and not any(self.inner(x[2]) == h for x in a.part)
        for k, cur, nxt in s.visit.get(('nx', h), ()):
            if k == kk:
                return lin(nxt, 32) == a.pos
        return False

    def within(self, r, h):
        return any(self.inside(b, h) for b in r.ev[1])

    def inside(self, b, h):
        return b in self.loops.get(h, ())

    def gap(self, a, h, s):
        kk = dict(a.choice).get(h)
        for k, cur, nxt in s.visit.get(('nx', h), ()):
            if k == kk:
                return 'the next record goes to %s instead of %s' % (say(lin(nxt, 32)), say(a.pos))
        return 'no variable carries the position to the next iteration'

    def aligned(self, x, n):
        """a position rounded up, in the forms that are right on this path"""
        j = n.bit_length() - 1
        low = ('L', frozenset([(('low', j, narrow(x, j)), 1)]), 0)
        up = plus(x, n - 1)
        r = [plus(up, ('L', frozenset([(('low', j, narrow(up, j)), 1)]), 0), -1)]
        for c in self.ctx.conds:
            t, pol = self.leaf(c)
            y = canon(t)
            if y in (low, ('L', frozenset([(('low', j, x), 1)]), 0)):
                r.append(plus(plus(x, low, -1), n) if pol else x)
        return r

    def accept(self, st, a, pc, b, n):
        """(alternatives after the piece, reason when there is none)"""
        if a.pos == DONE:
            return [a], None
        if a.pos is None:
            r, w = self.accept(st, Alt(pc.at, a.choice, a.recs, a.part, a.cand, pc.at), pc, b, n)
            r = [x for x in r if x.recs or x.part]
            return ([a] if not r else r), None
        if st.align and not a.part:
            m = [x for x in self.aligned(a.pos, st.align) if const(plus(pc.at, x, -1)) == 0]
            if m:
                a = Alt(m[0], a.choice, a.recs, a.part, a.cand, a.start)
            elif const(plus(pc.at, a.pos, -1)) is not None:
                return [], 'a record is written at %s, which is not rounded up to %d bytes' % (say(pc.at), st.align)
        d = const(plus(pc.at, a.pos, -1))
        if d is None or d < 0 or d >= 4096 or a.part and d > max(k.size if isinstance(k.size, int) else 4096 for k in st.kinds):
            return [a], None
        if d and not a.part and not any(d in k.parts for k in st.kinds):
            return [a], None
        cands = a.cand if a.cand is not None else [(k, None) for k in st.kinds]
        out, seen = [], []
        filled = set(x[0] for x in a.part)
        for k, E in cands:
            cover = [d] if pc.kind != 'z' or not isinstance(pc.n, int) else [o for o in k.parts if d <= o < d + pc.n]
            if not cover or d not in k.parts:
                continue
            es = [E]
            for o in cover:
                z, v = k.parts[o]
                if o in filled:
                    es = []
                    break
                if z is not None and (pc.n != z if pc.kind != 'z' or not isinstance(pc.n, int) else o + z > d + pc.n):
                    seen.append((k, v, 'size'))
                    es = []
                    break
                q = Piece(pc.sp, pc.at, z, pc.kind, pc.what, pc.loc, pc.idx) if pc.kind == 'z' and z is not None else pc
                es2 = []
                for e in es:
                    for x in v.ok(self, q, e):
                        if x not in es2:
                            es2.append(x)
                if not es2:
                    seen.append((k, v, 'value'))
                es = es2
            for e in es:
                if e is None or k.over is None or self.over(k.over, e):
                    out.append((k, e, cover))
                else:
                    seen.append((k, 'the data of the object in question', 'value'))
        if not out:
            if a.start is not None and st.start is None and not a.recs and not a.part:
                return [], None
            k, v, what = seen[0] if seen else (None, None, None)
            if k is None:
                return [a], None
            return [], '%s: %s is written where %s belongs' % (k.name, self.what(pc), v)
        res = []
        full = [x for x in out if len(filled | set(x[2])) == len(x[0].parts)]
        if full:
            for k, e, cover in full:
                size = k.size if isinstance(k.size, int) else None
                part = a.part + tuple((o, pc, b) for o in cover)
                n_ = size
                if k.size == 'piece':
                    n_ = pc.n
                elif callable(k.size):
                    n_ = k.size(self, dict((x[0], x[1]) for x in part))
                r = Rec(st.name, k, e, a.pos, self.inner(b), (n, tuple(x[2] for x in part)), dict((x[0], x[1]) for x in part), n_)
                res.append(Alt(DONE if st.once else plus(a.pos, n_), a.choice, a.recs + (r,), (), None, a.start))
            return dedup(res), None
        part = a.part + tuple((o, pc, b) for o in out[0][2])
        return [Alt(a.pos, a.choice, a.recs, part, [(k, e) for k, e, c in out if c == out[0][2]], a.start)], None


def dedup(alts):
    r = []
    seen = set()
    for a in alts:
        k = (a.pos, a.choice, tuple((x.kind.name, x.E, x.pos) for x in a.recs))
        if k not in seen:
            seen.add(k)
            r.append(a)
    return r


def plain(t):
    return t


def rebase(t, e):
    """a term with one marker object in place of the object it is about"""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('ld',) and len(t) == 5:
        if e is not None and t[1] == ('arg', 0) and isinstance(t[2], int):
            return ('ld', ('obj', e[0]), t[2] + e[1], t[3], 0)
        if isinstance(t[2], int):
            return ('ld', ('obj', where(t[1])), t[2], t[3], 0)
    return tuple(rebase(x, e) if isinstance(x, tuple) else x for x in t)
