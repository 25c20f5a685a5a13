"""Exact summaries of small functions: a disjunctive abstract interpretation that keeps one abstract state per
combination of branch outcomes (loops are cut: what a loop changes is unknown after it).

Values are terms over the initial state: ('c', n, bits), ('a', k) scalar argument, ('p', base, off) pointer,
('ld', base, off, size, epoch) initial (or havocked) content of a cell, ('op', name, bits, a, b), ('cast', op, from, to, a),
('cmp', pred, a, b), ('call', name, args, ...), ('any', id).
Bases: ('arg', k), ('new', id), ('loc', id), ('ref', value) what a loaded or returned pointer points to, ('glob', name).
Library objects (std::string and so on) have a content per address: ('init', base, off, epoch), ('empty',), ('of', ...)."""
import re
from .ir import strip_tpl

MAXPATHS = 20000
NEWS = ('_Znwm', '_Znam', '_Znwj')
DELS = ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
INTRS = ('llvm.memcpy', 'llvm.memmove', 'llvm.memset')
INTOPS = ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr')


NOTHROW = ('operator[]', 'begin', 'end', 'rbegin', 'rend', 'c_str', 'data', 'size', 'length', 'empty', 'front', 'back', 'clear', 'swap', 'pop_back',
           'operator*', 'operator->', 'operator++', 'operator--', 'operator==', 'operator!=', 'get', 'release', 'move', 'forward')


class Cut(Exception):
    pass


def width(t):
    if t == 'ptr':
        return 64
    m = re.match(r'^i(\d+)$', t or '')
    return int(m.group(1)) if m else 0


def bits(v):
    k = v[0]
    if k == 'c':
        return v[2]
    if k == 'ld':
        return v[3] * 8
    if k == 'op':
        return v[2]
    if k == 'cast':
        return v[3]
    if k == 'cmp':
        return 1
    if k == 'a':
        return v[2]
    if k == 'call':
        return v[3]
    if k == 'any':
        return v[2]
    return 64


def C(n, b):
    return ('c', n & ((1 << b) - 1), b)


NULL = ('c', 0, 64)


def mkop(o, b, x, y):
    if x[0] == 'c' and y[0] == 'c':
        m = (1 << b) - 1
        a, c = x[1], y[1]
        r = {'add': a + c, 'sub': a - c, 'mul': a * c, 'and': a & c, 'or': a | c, 'xor': a ^ c, 'shl': a << c if c < b else 0, 'lshr': a >> c if c < b else 0}.get(o)
        if r is not None:
            return C(r & m, b)
        if o == 'udiv' and c:
            return C(a // c, b)
        if o == 'urem' and c:
            return C(a % c, b)
    if o in ('add', 'or', 'xor', 'sub', 'shl', 'lshr') and y == C(0, b):
        return x
    if o in ('add', 'or', 'xor') and x == C(0, b):
        return y
    if o == 'and' and y == C(-1, b):
        return x
    if o == 'mul' and y == C(1, b):
        return x
    if o == 'sub' and y[0] == 'c':
        return mkop('add', b, x, C(-y[1], b))
    if o == 'add' and y[0] == 'c' and x[0] == 'op' and x[1] == 'add' and x[4][0] == 'c':
        return mkop('add', b, x[3], C(x[4][1] + y[1], b))
    if o in ('add', 'mul', 'and', 'or', 'xor') and (x[0] == 'c' or (y[0] != 'c' and repr(y) < repr(x))):
        x, y = y, x
    if o == 'xor' and b == 1 and y == C(1, 1):
        return neg(x)
    return ('op', o, b, x, y)


def neg(t):
    if t[0] == 'cmp':
        n = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}[t[1]]
        return mkcmp(n, t[2], t[3])
    if t[0] == 'c':
        return C(1 - t[1], 1)
    return ('op', 'xor', 1, t, C(1, 1))


def mkcast(o, f, t, x):
    if f == t:
        return x
    if x[0] == 'c':
        v = x[1]
        if o == 'sext' and v >> (f - 1):
            v -= 1 << f
        return C(v, t)
    if o == 'trunc' and t == 1 and bits(x) > 1:
        if x[0] == 'cast' and x[1] in ('zext', 'sext') and x[2] == 1:
            return x[4]
        if x[0] == 'ld':
            return mkcmp('ne', x, C(0, f))
    if o == 'trunc' and x[0] == 'cast' and x[1] in ('zext', 'sext'):
        if x[2] == t:
            return x[4]
        return mkcast('trunc' if x[2] > t else x[1], x[2], t, x[4])
    if o == 'trunc' and x[0] == 'cast' and x[1] == 'trunc':
        return mkcast('trunc', x[2], t, x[4])
    if o == 'zext' and x[0] == 'cast' and x[1] == 'zext':
        return mkcast('zext', x[2], t, x[4])
    if o in ('ptrtoint', 'inttoptr', 'bitcast'):
        return x
    if o == 'trunc' and x[0] == 'op' and x[1] in ('and', 'or', 'xor', 'add', 'sub', 'mul'):
        return mkop(x[1], t, mkcast('trunc', f, t, x[3]), mkcast('trunc', f, t, x[4]))
    if o == 'zext' and x[0] == 'op' and x[1] in ('and', 'or', 'xor', 'lshr'):
        return mkop(x[1], t, mkcast('zext', f, t, x[3]), mkcast('zext', f, t, x[4]))
    return ('cast', o, f, t, x)


SW = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def mkcmp(p, x, y):
    if x[0] == 'c' and y[0] != 'c':
        x, y, p = y, x, SW[p]
    if x[0] == 'c' and y[0] == 'c':
        b = x[2]
        a, c = x[1], y[1]
        sa, sc = [v - (1 << b) if v >> (b - 1) else v for v in (a, c)]
        return C(int({'eq': a == c, 'ne': a != c, 'ult': a < c, 'ugt': a > c, 'ule': a <= c, 'uge': a >= c, 'slt': sa < sc, 'sgt': sa > sc, 'sle': sa <= sc, 'sge': sa >= sc}[p]), 1)
    if x == y:
        return C(int(p in ('eq', 'ule', 'uge', 'sle', 'sge')), 1)
    if p in ('eq', 'ne') and y[0] == 'c':
        if bits(x) == 1:
            return x if (y[1] == 1) == (p == 'eq') else neg(x)
        if x[0] == 'cast' and x[1] == 'zext':
            if y[1] >> x[2]:
                return C(int(p == 'ne'), 1)
            return mkcmp(p, x[4], C(y[1], x[2]))
        if x[0] == 'p' and y[1] == 0 and x[1][0] != 'ref':
            return C(int(p == 'ne'), 1)
        if x[0] == 'p' and y[1] == 0 and x[1][0] == 'ref' and x[2] == 0:
            return ('cmp', p, x[1][1], y)
        if x[0] == 'op' and x[1] == 'add' and x[4][0] == 'c':
            return mkcmp(p, x[3], C(y[1] - x[4][1], y[2]))
        if x[0] == 'op' and x[1] == 'xor' and x[4][0] == 'c':
            return mkcmp(p, x[3], C(y[1] ^ x[4][1], y[2]))
    if p in ('eq', 'ne') and x[0] == 'p' and y[0] == 'p':
        if x[1] == y[1]:
            return C(int((x[2] == y[2]) == (p == 'eq')), 1)
        kinds = (x[1][0], y[1][0])
        if ('new' in kinds or 'loc' in kinds):
            return C(int(p == 'ne'), 1)
    if p in ('eq', 'ne') and y[0] != 'c' and repr(y) < repr(x):
        x, y = y, x
    # canonical: only eq/ne/ult/ule and slt/sle, negations kept as their own predicate
    if y[0] == 'c':
        n, b = y[1], y[2]
        m = (1 << b) - 1
        if p == 'ugt' and n == 0:
            return mkcmp('ne', x, y)
        if p == 'ult' and n == 1:
            return mkcmp('eq', x, C(0, b))
        if p == 'uge' and n == 0 or p == 'ule' and n == m:
            return C(1, 1)
        if p == 'ult' and n == 0 or p == 'ugt' and n == m:
            return C(0, 1)
        if p == 'ule':
            return mkcmp('ult', x, C(n + 1, b))
        if p == 'ugt':
            return mkcmp('uge', x, C(n + 1, b))
    else:
        if p in ('ugt', 'uge', 'sgt', 'sge') and repr(y) < repr(x) or p in ('ult', 'ule', 'slt', 'sle') and repr(y) < repr(x):
            x, y, p = y, x, SW[p]
    return ('cmp', p, x, y)


class St(object):
    __slots__ = ('env', 'mem', 'cont', 'conds', 'rng', 'freed', 'events', 'epoch', 'visit', 'exc')

    def copy(self):
        s = St.__new__(St)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.cont = dict(self.cont)
        s.conds = list(self.conds)
        s.rng = dict(self.rng)
        s.freed = list(self.freed)
        s.events = list(self.events)
        s.epoch = self.epoch
        s.visit = dict(self.visit)
        s.exc = self.exc
        return s


# a counter kept by the caller's hook, and a copy of it
GHOST = {(('loc', 'ghost'), 0): (4, ('c', 0, 32)), (('loc', 'ghost'), 8): (4, ('c', 0, 32))}


def fresh():
    s = St.__new__(St)
    s.env, s.mem, s.cont, s.conds, s.rng, s.freed, s.events, s.epoch, s.visit, s.exc = {}, {}, {}, [], {}, [], [], 0, {}, False
    return s


def assume(s, t):
    """adds a truth to a state; False when it contradicts what is known"""
    if t[0] == 'c':
        return bool(t[1])
    if t[0] == 'op' and t[2] == 1 and t[1] == 'and':
        return assume(s, t[3]) and assume(s, t[4])
    n = neg(t)
    if n in s.conds:
        return False
    if t in s.conds:
        return True
    if t[0] == 'cmp' and t[3][0] == 'c':
        x, k = t[2], t[3][1]
        lo, hi, ex = s.rng.get(x, (0, (1 << t[3][2]) - 1, ()))
        if t[1] == 'eq':
            if not lo <= k <= hi or k in ex:
                return False
            lo = hi = k
        elif t[1] == 'ne':
            if k not in ex:
                ex = ex + (k,)
        elif t[1] == 'ult':
            hi = min(hi, k - 1)
        elif t[1] == 'uge':
            lo = max(lo, k)
        while lo in ex:
            lo += 1
        while hi in ex:
            hi -= 1
        if lo > hi:
            return False
        s.rng[x] = (lo, hi, ex)
        if lo == hi:
            v = C(lo, t[3][2])
            for u in s.conds + [t]:
                if u[0] == 'cmp' and u[2] == x and u[3][0] == 'c' and mkcmp(u[1], v, u[3]) == C(0, 1):
                    return False
    s.conds.append(t)
    return True


def decide(s, t):
    """truth value of t in the state, or None"""
    if t[0] == 'c':
        return bool(t[1])
    if t in s.conds:
        return True
    if neg(t) in s.conds:
        return False
    a = s.copy()
    if not assume(a, t):
        return False
    a = s.copy()
    if not assume(a, neg(t)):
        return True
    return None


def marks(s):
    return dict((k, v) for k, v in s.visit.items() if isinstance(k, tuple) and k[0] in ('fill', 'hit', 'esc'))


def tname(f, n):
    """name of a called function with its template arguments"""
    m = re.search(r'%s(<.*?>)?\(' % re.escape(n.split('::')[-1]), f.dem) if f is not None else None
    return n + (m.group(1) or '') if m else n


def short(fn):
    return fn.name if fn is not None else None


CONTCLS = ('basic_string', 'vector', 'list', 'map', 'multimap', 'set', 'deque', 'unique_ptr', 'pair', 'auto_ptr', 'shared_ptr', 'basic_stringbuf')


def uniq(xs):
    r = []
    for x in xs:
        if x not in r:
            r.append(x)
    return r


def lin(t, w, r=None, k=1):
    """t as a sum: {atom: coefficient}, constant; widenings are seen through (callers guard against overflow)"""
    if r is None:
        r = {}
    m = (1 << w) - 1
    n = 0
    while True:
        if t[0] == 'cast' and t[1] in ('zext', 'sext') and t[2] > 1 or t[0] == 'cast' and t[1] == 'trunc' and t[3] >= w:
            t = t[4]
        elif t[0] == 'op' and t[1] == 'shl' and t[4][0] == 'c':
            k, t = k << t[4][1], t[3]
        elif t[0] == 'op' and t[1] == 'mul' and t[4][0] == 'c':
            k, t = k * t[4][1], t[3]
        elif t[0] == 'op' and t[1] == 'mul' and t[3][0] == 'c':
            k, t = k * t[3][1], t[4]
        else:
            break
    if t[0] == 'c':
        v = t[1]
        if v >> (t[2] - 1) and t[2] > 1:
            v -= 1 << t[2]
        return r, (n + k * v) & m
    if t[0] == 'p' and t[1][0] == 'ref' and isinstance(t[2], int):
        _, a = lin(t[1][1], w, r, k)
        return r, (n + a + k * t[2]) & m
    if t[0] == 'op' and t[1] in ('add', 'sub'):
        _, a = lin(t[3], w, r, k)
        _, b = lin(t[4], w, r, k if t[1] == 'add' else -k)
        return r, (n + a + b) & m
    a = t[1] if t[0] == 'any' and t[1][0] == 'iter' else t
    r[a] = (r.get(a, 0) + k) & m
    if not r[a]:
        del r[a]
    return r, n


def hasrec(t, b):
    return isinstance(t, tuple) and (t[:2] == ('rec', b) or any(hasrec(x, b) for x in t))


def lindiff(x, y, w):
    r, a = lin(x, w)
    r, b = lin(y, w, r, -1)
    return r, (a + b) & ((1 << w) - 1)


def offterm(o):
    if isinstance(o, int):
        return C(o, 64)
    t = C(o[0], 64)
    for v, k in o[1]:
        if bits(v) < 64:
            v = mkcast('zext', bits(v), 64, v)
        t = mkop('add', 64, mkop('mul', 64, v, C(k, 64)), t)
    return t


def stepof(cur, nxt, w):
    """nxt - cur when that is a constant"""
    if cur[0] != 'any' or bits(nxt) != w:
        return None
    r, n = lindiff(nxt, cur, w)
    return n if not r else None


class Paths(object):
    """all end states of one function: .rets (value, state), .throws (state)"""

    def __init__(self, p, f, pre=None, bind=None, alias=None, keep=(), inner=(), own=(), watch=(), ind=False, sink=None, ghost=None):
        """pre(state): list of truths assumed on entry; bind: argument index -> value; alias: argument index -> argument index"""
        self.p = p
        self.f = f
        self.bind = bind or {}
        self.alias = alias or {}
        self.pre = pre
        self.keep = set(keep)     # cells no call may change
        self.own = set(own)       # bases only calls that are given a pointer to them may change
        self.ghost = ghost         # called for every call: the result, or None to go on as usual
        self.watch = watch         # last names of calls to record: .seen (instruction, function, arguments, state before)
        self.inner = list(inner)   # (base, owner): what lies inside an object and dies with it
        self.havoc = {}
        self.hsize = {}
        self.sink = sink           # sink(destination): only record such writes (what they leave behind is not read)
        self.ind = ind             # describe what a loop changes by its course (start and step)
        self.recs = {}             # (header, number) -> values before the loop, values after an iteration
        self.course = {}           # (header, kind, key) -> ('step', c, w) or ('as', term with iterations)
        self.complete = True
        for rnd in range(5 if ind else 1):
            for _ in range(12):
                self.rets, self.throws, self.seen, self.n = [], [], [], 0
                self.ent, self.bck = {}, {}
                self.backs, self.writes = {}, []
                self.grew = False
                self._run()
                if not self.grew:
                    break
            else:
                self.complete = False
            if not ind or rnd == 4 or not self.learn(rnd):
                break
        self.settle()

    # -- helpers
    def arg(self, k):
        if k in self.bind:
            return self.bind[k]
        k = self.alias.get(k, k)
        a = self.f.args[k]
        if a['t'] == 'ptr':
            return ('p', ('arg', k), 0)
        return ('a', k, width(a['t']))

    def argnamed(self, name):
        for k, a in enumerate(self.f.args):
            if a.get('n') == name:
                return self.arg(k)
        return None

    def _run(self):
        s = fresh()
        if self.ghost is not None:
            s.mem.update(GHOST)
        for t in (self.pre(self) if self.pre else []):
            if not assume(s, t):
                return
        work = [(0, None, s)]
        try:
            while work:
                b, pred, s = work.pop()
                self.n += 1
                if self.n > MAXPATHS:
                    self.complete = False
                    return
                for nb, ns in self.block(b, pred, s):
                    work.append((nb, b, ns))
        except Cut:
            self.complete = False

    def val(self, s, o):
        if isinstance(o, int):
            if o in s.env:
                return s.env[o]
            if o in self.f.argidx:
                return self.arg(self.f.argidx[o])
            return ('any', ('undef', o), 64)
        k = o[0]
        if k == 'c':
            return C(int(o[1]), o[2])
        if k == 'n':
            return NULL
        if k == 'g':
            return ('p', ('glob', o[1]), 0)
        if k == 'f':
            return ('fn', o[1])
        if k == 'o':
            return self.gep(self.val(s, o[1]), o[2])
        if k == 'e' and o[1] in ('inttoptr', 'ptrtoint', 'bitcast') and len(o[2]) == 1:
            v = self.val(s, o[2][0])
            return C(v[1], 64) if v[0] == 'c' else v
        return ('any', ('const', repr(o)), 64)

    def gep(self, b, off, vs=()):
        b = self.aspt(b)
        o = b[2]
        if not isinstance(o, int):
            base, extra = o[0], list(o[1])
        else:
            base, extra = o, []
        base += off
        for v, n in vs:
            if v[0] == 'c':
                k = v[1] - (1 << v[2]) if v[1] >> (v[2] - 1) else v[1]
                base += k * n
            else:
                extra.append((v, n))
        return ('p', b[1], base if not extra else (base, tuple(extra)))

    def aspt(self, v):
        if v[0] == 'p':
            return v
        return ('p', ('ref', v), 0)

    def load(self, s, p, size, t):
        p = self.aspt(p)
        b, o = p[1], p[2]
        k = (b, o)
        if k in s.mem and s.mem[k][0] == size:
            return s.mem[k][1]
        if isinstance(o, int):
            for (b2, o2), (sz, v) in s.mem.items():
                if b2 == b and isinstance(o2, int) and o2 < o + size and o < o2 + sz:
                    if v[0] == 'c' and o2 <= o and o + size <= o2 + sz:
                        return C(v[1] >> (8 * (o - o2)), size * 8)
                    w = self.whole(s, b, o, size)
                    if w is not None:
                        return w
                    return ('any', ('part', b, o, size, v), size * 8)
                if b2 == b and not isinstance(o2, int):
                    return ('any', ('clob', b, o, size, v), size * 8)
        elif any(b2 == b for b2, o2 in s.mem):
            return ('any', ('idx', b, o, size, len(s.mem)), size * 8)
        ep = 'loc' if b[0] in ('loc', 'new') and (b not in s.visit or True) and ('esc', b) not in s.visit else s.epoch
        if k in self.keep:
            ep = 0
        elif b in self.own:
            ep = s.visit.get(('hit', b), 0)
        elif ('fill', b) in s.visit:
            ep = s.visit[('fill', b)]
        if self.ind and isinstance(ep, tuple) and ep and ep[0] == 'ret':
            b = ('val',)
        r = ('ld', b, o, size, ep)
        return r

    def wrote(self, s, i, d, n, src):
        """records a write through a computed pointer: position, number of bytes, what is written"""
        if d[1][0] == 'ref':
            self.writes.append((i, d, n, src, s.copy()))
            s.visit['wlog'] = s.visit.get('wlog', ()) + ((s.visit.get('cur'), len(self.writes) - 1),)
            return self.sink is not None and self.sink(d)

    def store(self, s, p, size, v):
        p = self.aspt(p)
        b, o = p[1], p[2]
        if isinstance(o, int):
            for k in [k for k in s.mem if k[0] == b and isinstance(k[1], int) and k[1] < o + size and o < k[1] + s.mem[k][0] and k[1] != o]:
                # keep the parts of constants
                sz, old = s.mem.pop(k)
                if old[0] == 'c':
                    for j in range(sz):
                        a = k[1] + j
                        if not o <= a < o + size:
                            s.mem[(b, a)] = (1, C(old[1] >> (8 * j), 8))
            old = s.mem.get((b, o))
            if old and old[0] > size:
                for j in range(size, old[0]):
                    s.mem[(b, o + j)] = (1, C(old[1][1] >> (8 * j), 8) if old[1][0] == 'c' else ('any', ('rest', b, o + j), 8))
        s.mem[(b, o)] = (size, v)
        if v[0] == 'p' and v[1][0] in ('loc', 'new') and b[0] not in ('loc', 'new'):
            s.visit[('esc', v[1])] = 1

    def content(self, s, p):
        p = self.aspt(p)
        k = (p[1], p[2])
        if k in s.cont:
            return s.cont[k]
        if p[1] in self.own:
            return ('init', p[1], p[2], s.visit.get(('hit', p[1]), 0))
        return ('init', p[1], p[2], s.epoch)

    def snapshot(self, s, x, t):
        """what is at x, which has type t (or a reference to it), now"""
        if re.match(r'^(const )?(unsigned )?(char|short|int|long|bool|wchar_t)( const)?( ?&{1,2})?$', t.strip()):
            v = s.mem.get((x[1], x[2]))
            return v[1] if v is not None else ('any', ('cell', x[1], x[2]), 64)
        if 'pe_bliss::' in t.split('<')[0]:
            return ('obj', tuple(sorted(((k[1] - x[2], v[1]) for k, v in s.mem.items() if k[0] == x[1]), key=repr)),
                    tuple(sorted(((k[1] - x[2], v) for k, v in s.cont.items() if k[0] == x[1] and isinstance(k[1], int)), key=repr)))
        return self.content(s, x)

    # -- blocks
    def block(self, b, pred, s):
        cfg = self.f.cfg()
        if self.ind:
            s = s.copy()
            for h in cfg.loops:
                if pred in cfg.loops[h] and b not in cfg.loops[h] and s.visit.get(h):
                    n, m = s.visit[('at', h)][:2]
                    s.visit[('end', h)] = (tuple(s.conds[n:]), s.visit.get('log', ())[m:])
                elif pred in cfg.loops[h] and b == h and s.visit.get(h):
                    self.backs.setdefault(h, []).append(s)
            s.visit['cur'] = b
        if b in cfg.loops:
            if s.visit.get(b):
                if pred in cfg.loops[b]:
                    if self.ind:
                        self.note(b, pred, s)
                    self.back(b, s)
                    return []
            if pred not in cfg.loops[b]:
                s = s.copy()
                self.enter(b, s)
        s = s.copy()
        ins = self.f.blocks[b]
        phis = {}
        k = 0
        while k < len(ins) and ins[k].op == 'phi':
            i = ins[k]
            if b in cfg.loops:
                phis[i.id] = ('any', ('phi', i.id), width(i.get('t')))
                # a value that does not change around the loop
                vs = set()
                for pb, o in i.get('in'):
                    if pb not in cfg.loops[b]:
                        if pb == pred:
                            ent = self.val(s, o)
                    else:
                        vs.add(repr(o))
                if vs == set([repr(i.id)]):
                    phis[i.id] = ent
                elif self.ind:
                    s.visit[('ent', b, i.id)] = ent
                    self.ent.setdefault((b, 'p', i.id), []).append(ent)
                    phis[i.id] = self.follow(b, 'p', i.id, ent, phis[i.id])
                    s.visit[('in', b)] = s.visit.get(('in', b), ()) + ((('p', i.id), phis[i.id], ent),)
            else:
                for pb, o in i.get('in'):
                    if pb == pred:
                        phis[i.id] = self.val(s, o)
            k += 1
        s.env.update(phis)
        return self.go(ins, k, s)

    def enter(self, b, s):
        s.visit[b] = None
        s.visit[('in', b)] = ()
        old = s.copy() if self.ind else s
        for kind, key in sorted(self.havoc.get(b, ()), key=repr):
            if kind == 'v':
                v = ('loop', b)
                if self.ind and key in s.visit and key[0] == 'fill':
                    self.ent.setdefault((b, 'v', key), []).append(s.visit[key])
                    v = self.follow(b, 'v', key, s.visit[key], v)
                s.visit[key] = v
            elif kind == 'm':
                sz = s.mem[key][0] if key in s.mem else self.hsize.get(key, 8)
                v = ('any', ('loop', b, key), sz * 8)
                if self.ind:
                    e = self.load(old, ('p',) + key, sz, None)
                    self.ent.setdefault((b, 'm', key), []).append(e)
                    v = self.follow(b, 'm', key, e, v)
                    s.visit[('in', b)] = s.visit.get(('in', b), ()) + ((('m', key), v, e),)
                s.mem[key] = (sz, v)
            elif kind == 'c':
                s.cont[key] = ('any', ('loop', b, key), 64)
            elif kind == 'e':
                s.epoch = ('loop', b)
        s.visit[b] = (dict(s.mem), dict(s.cont), list(s.freed), s.epoch, marks(s))
        s.visit[('at', b)] = (len(s.conds), len(s.visit.get('log', ())), len(s.visit.get('wlog', ())))

    def back(self, b, s):
        m, c, fr, ep, vs = s.visit[b]
        h = self.havoc.setdefault(b, set())
        new = set()
        loc = set()
        for k in set(m) | set(s.mem):
            if m.get(k) != s.mem.get(k):
                new.add(('m', k))
                self.hsize.setdefault(k, (m.get(k) or s.mem.get(k))[0])
        for k in set(c) | set(s.cont):
            if c.get(k) != s.cont.get(k):
                new.add(('c', k))
        if ep != s.epoch:
            new.add(('e', 0))
        now = marks(s)
        for k in set(vs) | set(now):
            if vs.get(k) != now.get(k):
                new.add(('v', k))
        new = set(x for x in new if x not in h and not (x[0] == 'm' and x[1] in m and m[x[1]][1][:1] == ('any',) and m[x[1]][1][1][:2] == ('loop', b)))
        if new:
            h |= new
            self.grew = True

    # -- courses of loops
    def follow(self, b, kind, key, ent, dflt):
        c = self.course.get((b, kind, key))
        if c is None:
            return dflt
        if c[0] == 'step':
            return mkop('add', c[2], ent, mkop('mul', c[2], ('any', ('iter', b), c[2]), C(c[1], c[2])))
        return c[1]

    def note(self, b, pred, s):
        """values at the end of an iteration"""
        nx = []
        for i in self.f.blocks[b]:
            if i.op != 'phi':
                break
            for pb, o in i.get('in'):
                if pb == pred:
                    x = (s.env.get(i.id), self.val(s, o))
                    self.bck.setdefault((b, 'p', i.id), []).append(x)
                    nx.append((('p', i.id),) + x)
        for kind, key in self.havoc.get(b, ()):
            if kind == 'm':
                m = s.visit[b][0].get(key)
                if m:
                    x = (m[1], self.load(s, ('p',) + key, m[0], None))
                    self.bck.setdefault((b, 'm', key), []).append(x)
                    nx.append((('m', key),) + x)
        s.visit[('nx', b)] = tuple(nx)
        for kind, key in self.havoc.get(b, ()):
            if kind == 'v' and key in s.visit and key[0] == 'fill':
                self.bck.setdefault((b, 'v', key), []).append((s.visit[b][4].get(key), s.visit[key]))

    def learn(self, rnd):
        n = len(self.course)
        table = {}
        for k in sorted(self.ent, key=repr):
            es, bs = self.ent[k], self.bck.get(k)
            if k in self.course or not bs:
                continue
            es, bs = uniq(es), uniq(bs)
            if len(bs) > 400 or len(es) > 400:
                continue
            b, kind, key = k
            cur = bs[0][0]
            if kind in 'pm' and cur is not None and all(x[0] == cur for x in bs):
                w = bits(cur)
                d = set(stepof(cur, x[1], w) for x in bs)
                if len(d) == 1 and None not in d:
                    self.course[k] = ('step', d.pop(), w)
                    continue
            if rnd == 0:
                continue
            t = self.general(b, tuple(uniq(es)), tuple(uniq([x[1] for x in bs])), table)
            if t is not None and (rnd >= 2 or not hasrec(t, b)):
                self.course[k] = ('as', t)
        return len(self.course) > n or rnd < 2

    def general(self, b, es, bs, table):
        """a term that is every one of es before the first iteration and the matching one of bs after any iteration"""
        ts = es + bs
        t0 = ts[0]
        if all(t == t0 for t in ts):
            return t0
        if not isinstance(t0, tuple):
            return None
        if any(isinstance(t, tuple) and t[:1] == ('p',) for t in ts) and not all(t[0] == 'p' for t in ts):
            es, bs = tuple(self.aspt(t) for t in es), tuple(self.aspt(t) for t in bs)
            ts = es + bs
            t0 = ts[0]
        if all(isinstance(t, tuple) and t and t[0] == t0[0] and len(t) == len(t0) for t in ts):
            k = t0[0]
            if k == 'call' and all(t[1] == t0[1] and t[3] == t0[3] for t in ts) and all(len(t[2]) == len(t0[2]) for t in ts):
                r = [self.general(b, tuple(t[2][j] for t in es), tuple(t[2][j] for t in bs), table) for j in range(len(t0[2]))]
                if None not in r:
                    return ('call', t0[1], tuple(r), t0[3], ())
            if k == 'ret' and all(t[1] == t0[1] for t in ts) and all(len(t[2]) == len(t0[2]) for t in ts):
                r = [self.general(b, tuple(t[2][j] for t in es), tuple(t[2][j] for t in bs), table) for j in range(len(t0[2]))]
                if None not in r:
                    return ('ret', t0[1], tuple(r), ())
            if k == 'ld' and all(t[2:4] == t0[2:4] for t in ts) and all(isinstance(t[4], tuple) and t[4][0] == 'ret' for t in ts):
                r = self.general(b, tuple(t[4] for t in es), tuple(t[4] for t in bs), table)
                if r is not None:
                    return ('ld', ('val',), t0[2], t0[3], r)
            if k == 'ld' and all(t[2:4] == t0[2:4] and t[1][0] == 'agg' for t in ts):
                r = self.general(b, tuple(t[1][1] for t in es), tuple(t[1][1] for t in bs), table)
                if r is not None:
                    return ('ld', ('agg', r), t0[2], t0[3], t0[4])
            if k == 'cast' and all(t[1:4] == t0[1:4] for t in ts):
                r = self.general(b, tuple(t[4] for t in es), tuple(t[4] for t in bs), table)
                if r is not None:
                    return t0[:4] + (r,)
            if k == 'op' and t0[1] in ('lshr', 'ashr', 'and', 'shl') and all(t[1:3] == t0[1:3] and t[4] == t0[4] and t[4][0] == 'c' for t in ts):
                r = self.general(b, tuple(t[3] for t in es), tuple(t[3] for t in bs), table)
                if r is not None:
                    return mkop(t0[1], t0[2], r, t0[4])
            if k == 'p' and all(t[1] == t0[1] for t in ts):
                r = self.general(b, tuple(offterm(t[2]) for t in es), tuple(offterm(t[2]) for t in bs), table)
                return None if r is None else ('p', t0[1], (0, ((r, 1),)))
        if t0[0] in ('p', 'ret'):
            return None
        if any(t[0] == 'cast' and t[1] == 'zext' for t in ts) and all(t[0] == 'c' and t[1] < 1 << 31 or t[0] == 'cast' and t[1] == 'zext' and t[2] == 32 for t in ts):
            r = self.general(b, tuple(mkcast('trunc', 64, 32, t) for t in es), tuple(mkcast('trunc', 64, 32, t) for t in bs), table)
            return None if r is None else mkcast('zext', 32, bits(t0), r)
        w = bits(t0)
        if any(bits(t) != w for t in ts):
            return None
        if len(set(es)) == 1:
            it = ('any', ('iter', b), w)
            d = [lindiff(x, es[0], w) for x in bs]
            if all(y == d[0] for y in d) and d[0] is not None:
                # c * iter + c
                at, n = d[0]
                if not at and n == 0:
                    return es[0]
                if list(at) == [('iter', b)] and at[('iter', b)] == n:
                    return mkop('add', w, es[0], mkop('mul', w, it, C(n, w)))
        key = (b, es, bs)
        if key not in table:
            n = len(self.recs)
            self.recs[(b, n)] = (es, bs)
            table[key] = ('any', ('rec', b, n), w)
        return table[key]

    def settle(self):
        """the values of the generalised positions in terms of the final courses"""
        out = {}

        def align(t, x, side):
            if not isinstance(t, tuple) or t == x:
                return
            if len(t) == 3 and t[0] == 'any' and isinstance(t[1], tuple) and t[1][0] == 'rec':
                out.setdefault(t[1][1:], ([], []))[side].append(x)
            elif t[:1] == ('cast',) and t[1] == 'zext' and x[0] == 'c':
                align(t[4], C(x[1], t[2]), side)
            elif isinstance(x, tuple) and len(x) == len(t) and x[:1] == t[:1]:
                for a, b in zip(t, x):
                    align(a, b, side)
        for k, c in self.course.items():
            if c[0] == 'as':
                for e in self.ent.get(k, ()):
                    align(c[1], e, 0)
                for _, v in self.bck.get(k, ()):
                    align(c[1], v, 1)
        self.recs = dict((k, (tuple(uniq(es)), tuple(uniq(bs)))) for k, (es, bs) in out.items() if es and bs)

    def go(self, ins, k, s):
        """runs from instruction k on; returns successor states"""
        while k < len(ins):
            i = ins[k]
            op = i.op
            if op in ('call', 'invoke'):
                outs = self.callins(i, s)
                if outs is None:
                    return []
                r = []
                normal = [x for x in outs if x[0] == 'n']
                for kind, ns in outs:
                    if kind == 'u':
                        r.append((i.get('ud'), ns))
                if op == 'invoke':
                    return r + [(i.get('nd'), ns) for _, ns in normal]
                if len(normal) == 1:
                    s = normal[0][1]
                    k += 1
                    continue
                for _, ns in normal:
                    r += self.go(ins, k + 1, ns)
                return r
            if op == 'br':
                if i.get('v') is None:
                    return [(i.get('s')[0], s)]
                return self.fork(s, self.val(s, i.get('v')), i.get('s')[0], i.get('s')[1])
            if op == 'switch':
                v = self.val(s, i.get('v'))
                r = []
                bt = bits(v)
                d = s.copy()
                ok = True
                for cv, t in i.get('cs'):
                    c = mkcmp('eq', v, C(int(cv), bt))
                    n = s.copy()
                    if assume(n, c):
                        r.append((t, n))
                    ok = ok and assume(d, neg(c))
                if ok:
                    r.append((i.get('df'), d))
                return r
            if op == 'ret':
                a = i.get('a')
                self.rets.append((self.val(s, a[0]) if a else None, s))
                return []
            if op == 'resume':
                self.throws.append(s)
                return []
            if op == 'unreachable':
                return []
            if op == 'select':
                a = i.get('a')
                c = self.val(s, a[0])
                d = decide(s, c)
                if d is not None:
                    s.env[i.id] = self.val(s, a[1 if d else 2])
                    k += 1
                    continue
                r = []
                for t, w in ((c, 1), (neg(c), 2)):
                    n = s.copy()
                    if assume(n, t):
                        n.env[i.id] = self.val(n, a[w])
                        r += self.go(ins, k + 1, n)
                return r
            self.plain(i, s)
            k += 1
        return []

    def fork(self, s, c, bt, bf):
        r = []
        if c[0] == 'op' and c[2] == 1 and c[1] in ('and', 'or'):
            # take the parts in turn
            for nb, ns in self.fork(s, c[3], True, False):
                if nb == (c[1] == 'and'):
                    r += self.fork(ns, c[4], bt, bf)
                else:
                    r.append((bf if c[1] == 'and' else bt, ns))
            return r
        for t, nb in ((c, bt), (neg(c), bf)):
            n = s.copy()
            if assume(n, t):
                r.append((nb, n))
        return r

    def plain(self, i, s):
        op = i.op
        a = i.get('a')
        if op == 'alloca':
            s.env[i.id] = ('p', ('loc', i.id), 0)
        elif op == 'load':
            s.env[i.id] = self.load(s, self.val(s, i.get('p')), i.get('sz'), i.get('t'))
            p = self.aspt(self.val(s, i.get('p')))
            s.events.append(('load', i, p))
        elif op == 'store':
            p = self.val(s, i.get('p'))
            if not self.ind or not self.wrote(s, i, self.aspt(p), C(i.get('sz'), 64), ('value', self.val(s, i.get('v')))):
                self.store(s, p, i.get('sz'), self.val(s, i.get('v')))
            s.events.append(('store', i, self.aspt(p)))
        elif op == 'getelementptr':
            s.env[i.id] = self.gep(self.val(s, i.get('p')), i.get('off') or 0, [(self.val(s, v), n) for v, n in (i.get('vs') or ())])
        elif op in INTOPS:
            s.env[i.id] = mkop(op, width(i.get('t')), self.val(s, a[0]), self.val(s, a[1]))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            s.env[i.id] = mkcast(op, width(i.get('ot')), width(i.get('t')), self.val(s, a[0]))
        elif op == 'icmp':
            s.env[i.id] = mkcmp(i.get('pr'), self.val(s, a[0]), self.val(s, a[1]))
        elif self.ind and op == 'extractvalue' and self.agg(i, s) is not None:
            s.env[i.id] = self.agg(i, s)
        elif op == 'extractvalue' or op == 'insertvalue':
            s.env[i.id] = ('any', (op, i.id), width(i.get('t')) or 64)
        elif i.id is not None:
            s.env[i.id] = ('any', (op, i.id), width(i.get('t')) or 64)

    def agg(self, i, s):
        """a part of a structure returned in registers"""
        x = i.get('a') or ()
        ix = i.get('ix')
        if not x or ix is None or len(ix) != 1:
            return None
        v = self.val(s, x[0])
        w = width(i.get('t'))
        if v[0] != 'call' or not w:
            return None
        return ('ld', ('agg', v), 8 * ix[0], w // 8, 'loc')

    def memop(self, n, i, s, a):
        if n.startswith('llvm.memset'):
            p = self.aspt(a[0])
            if self.ind and self.wrote(s, i, p, a[2], ('fill', a[1])):
                return
            if a[2][0] == 'c' and a[1][0] == 'c' and isinstance(p[2], int) and a[2][1] <= 4096:
                o, e = p[2], p[2] + a[2][1]
                while o < e:
                    sz = 8 if o % 8 == 0 and o + 8 <= e else 4 if o % 4 == 0 and o + 4 <= e else 1
                    self.store(s, ('p', p[1], o), sz, C(int('%02x' % a[1][1] * sz, 16), sz * 8))
                    o += sz
                # split into single bytes so that any later access width works
                return
            self.store(s, p, 8, ('any', ('memset', i.id), 64))
            return
        d, q = self.aspt(a[0]), self.aspt(a[1])
        if self.ind and self.wrote(s, i, d, a[2], ('copy', q)):
            return
        s.events.append(('load', i, q))
        s.events.append(('store', i, d))
        if a[2][0] == 'c' and isinstance(d[2], int) and isinstance(q[2], int):
            n = a[2][1]
            cells = dict((o, (sz, v)) for (b, o), (sz, v) in s.mem.items() if b == q[1] and isinstance(o, int) and o < q[2] + n and o + sz > q[2])
            for k in [k for k in s.mem if k[0] == d[1] and isinstance(k[1], int) and d[2] <= k[1] < d[2] + n]:
                del s.mem[k]
            s.mem[(d[1], ('blk', d[2], n))] = (n, ('blk', q[1], q[2], s.epoch)) if False else (n, ('blk', q[1], q[2], s.epoch))
            # cells are copied lazily: remember the block, and copy the known cells
            del s.mem[(d[1], ('blk', d[2], n))]
            done = set()
            for o, (sz, v) in sorted(cells.items()):
                self.store(s, ('p', d[1], o - q[2] + d[2]), sz, v)
                done.update(range(o, o + sz))
            lay = self.layout(d[2], n, i)
            for o, sz in lay:
                if not any(x in done for x in range(q[2] + o, q[2] + o + sz)):
                    self.store(s, ('p', d[1], d[2] + o), sz, self.load(s, ('p', q[1], q[2] + o), sz, None))
            return
        self.store(s, d, 8, ('any', ('memcpy', i.id), 64))

    def whole(self, s, b, o, size):
        """single bytes of one value put together"""
        bs = [s.mem.get((b, o + j)) for j in range(size)]
        if all(x is not None and x[0] == 1 and x[1][0] == 'ld' and isinstance(x[1][2], int) for x in bs):
            bs = [x[1] for x in bs]
            if all(x[1] == bs[0][1] and x[2] == bs[0][2] + j and x[4] == bs[0][4] for j, x in enumerate(bs)):
                return ('ld', bs[0][1], bs[0][2], size, bs[0][4])
        return None

    layouts = None

    def layout(self, off, n, i):
        """cells of a copied block: bytes, regrouped on reading by the byte-wise comparison of cell()"""
        return [(o, 1) for o in range(n)]

    def cell(self, s, b, o, size):
        """value of a cell; byte-wise copies are put together"""
        k = (b, o)
        if k in s.mem and s.mem[k][0] == size:
            return s.mem[k][1]
        bs = []
        for j in range(size):
            x = s.mem.get((b, o + j))
            if x is None or x[0] != 1:
                hit = [(o2, sz, v) for (b2, o2), (sz, v) in s.mem.items() if b2 == b and isinstance(o2, int) and o2 <= o + j < o2 + sz and v[0] == 'c']
                if hit:
                    bs.append(C(hit[0][2][1] >> (8 * (o + j - hit[0][0])), 8))
                    continue
                return self.load(s, ('p', b, o), size, None)
            bs.append(x[1])
        if all(x[0] == 'c' for x in bs):
            return C(sum(x[1] << (8 * j) for j, x in enumerate(bs)), size * 8)
        if all(x[0] == 'ld' and x[3] == 1 and x[1] == bs[0][1] and x[2] == bs[0][2] + j and x[4] == bs[0][4] for j, x in enumerate(bs)):
            return ('ld', bs[0][1], bs[0][2], size, bs[0][4])
        return ('any', ('mix', b, o, size), size * 8)

    def callins(self, i, s):
        f = self.p.fns.get(i.callee) if i.callee else None
        a = [self.val(s, x) for x in i.get('a') or ()]
        n = f.name if f is not None else (i.callee or '?')
        if i.callee and i.callee.startswith(INTRS):
            self.memop(i.callee, i, s, a)
            return [('n', s)]
        if f is not None and (f.raw.get('intr') or i.callee.startswith('llvm.')):
            if i.id is not None:
                s.env[i.id] = ('any', (n, i.id), width(i.get('t')) or 64)
            return [('n', s)]
        outs = []
        s.events.append(('call', i, f, a))
        if self.watch and n.split('::')[-1] in self.watch:
            self.seen.append((i, f, a, s.copy()))
            s.visit['log'] = s.visit.get('log', ()) + ((s.visit.get('cur'), len(self.seen) - 1),)
        if n in ('__cxa_throw', '__cxa_rethrow', '__clang_call_terminate', 'std::terminate'):
            s.exc = True
            if i.op == 'invoke':
                return [('u', s)]
            if n.startswith('__cxa'):
                self.throws.append(s)
            return []
        if i.callee and not i.callee.startswith('_') and f is not None and not f.has_body:
            pass    # a C function
        elif f is not None and f.std and n.split('::')[-1] in NOTHROW:
            pass
        elif i.op == 'invoke':
            u = s.copy()
            u.exc = True
            outs.append(('u', u))
        elif not i.get('nu') and not (f is not None and f.raw.get('nu')) and i.callee not in DELS:
            self.throws.append(s.copy())
        if f is not None and f.raw.get('nr'):
            return outs
        k = len(self.seen)
        self.effect(i, f, n, a, s)
        if self.watch and n.split('::')[-1] in self.watch:
            s.visit['after'] = s.visit.get('after', ()) + ((k - 1, tuple((b, s.visit.get(('hit', b), 0)) for b in sorted(self.own, key=repr))),)
        outs.append(('n', s))
        return outs

    def effect(self, i, f, n, a, s):
        w = width(i.get('t')) or 64
        rid = i.id

        def res(v):
            if rid is not None:
                s.env[rid] = v
        if self.ghost is not None:
            v = self.ghost(self, i, n, a, s)
            if v is not None:
                return res(v)
        if i.callee in NEWS:
            k = i.id
            while ('loop?', k) in s.visit:
                k = (k,)
            b = ('new', i.id)
            for key in [x for x in s.mem if x[0] == b]:
                del s.mem[key]
            for key in [x for x in s.cont if x[0] == b]:
                del s.cont[key]
            s.freed = [x for x in s.freed if x != b]
            s.events.append(('new', i, b, a[0] if a else None))
            return res(('p', b, 0))
        if i.callee in DELS:
            p = self.aspt(a[0])
            if p[1] in s.freed:
                s.events.append(('double', i, p))
            s.events.append(('free', i, p[1], a[1] if len(a) > 1 else None, p[2]))
            s.freed.append(p[1])
            for b, o in self.inner:
                if o == p[1]:
                    s.events.append(('free', i, b, None, 0))
            return
        if n in ('__cxa_begin_catch', '__cxa_allocate_exception', '__cxa_end_catch', '__cxa_free_exception'):
            return res(('p', ('exc', i.id), 0))
        cls = None
        last = n.split('::')[-1]
        if f is not None and '::' in n:
            m = n.rsplit('::', 1)[0].split('::')[-1]
            cls = strip_tpl(m)
        if n == 'std::move' or n == 'std::forward':
            return res(a[0])
        if self.ind and f is not None and f.std and cls is not None and cls == last and len(a) == 2 and cls in ('__normal_iterator', '_Rb_tree_const_iterator') and a[1][0] == 'p':
            # conversion of an iterator: the same position
            q = self.aspt(a[0])
            s.mem[(q[1], q[2])] = (8, self.load(s, self.aspt(a[1]), 8, i))
            s.visit[('esc', q[1])] = 1
            return
        if cls in CONTCLS and a:
            if self.container(i, f, cls, last, a, s, res, w):
                return
        const = f is not None and f.const
        if self.ind and f is not None and not f.std and not const and len(a) == len(f.params) and not i.get('sret') and a and all(self.constarg(f, k, i) or '&' not in f.params[k] and '*' not in f.params[k] for k in range(len(a))):
            const = True         # a function of its arguments
        args = tuple(a)
        conts = tuple(self.content(s, x) for x in a if x[0] == 'p')
        std = f is not None and f.std
        sret = i.get('sret')
        pair = None
        if self.ind and std and len(a) == 3 and all(x[0] == 'p' and isinstance(x[2], int) for x in a) and (last == 'make_pair' and sret or cls == last == 'pair'):
            # the two values, as they are now
            pair = ('pair',) + tuple(self.snapshot(s, x, t) for x, t in zip(a[1:], f.params[-2:]))
        if f is None or not (const or self.pure(f, n)):
            # what the call may change
            for k, x in enumerate(a):
                if x[0] == 'p':
                    if self.constarg(f, k, i):
                        continue
                    for key in [y for y in s.mem if y[0] == x[1] and y not in self.keep]:
                        del s.mem[key]
                    s.visit[('esc', x[1])] = 1
                    s.visit.pop(('fill', x[1]), None)
                    if x[1] in self.own:
                        s.visit[('hit', x[1])] = (i.id if i.id is not None else ('at', i.loc, id(i)), 'own')
                    for key in [y for y in s.cont if y[0] == x[1]]:
                        s.cont[key] = ('any', ('call', i.id, key), 64)
                    s.cont[(x[1], x[2])] = ('mut', last, args, conts, i.id)
            if pair is not None:
                s.cont[(a[0][1], a[0][2])] = pair
            if not std:
                for key in [y for y in s.mem if y[0][0] not in ('loc', 'new') and y not in self.keep and y[0] not in self.own]:
                    del s.mem[key]
                for key in [y for y in s.cont if y[0][0] not in ('loc', 'new') and y[0] not in self.own]:
                    del s.cont[key]
            s.epoch = (i.id, s.epoch if isinstance(s.epoch, int) else 0)
            if sret and a and self.aspt(a[0])[1][0] == 'loc':
                s.visit[('fill', self.aspt(a[0])[1])] = ('ret', tname(f, n), args[1:], i.id)
            res(('call', tname(f, n) if self.ind else n, args, w, i.id))
        else:
            for k, x in enumerate(a):
                # what is reported through a parameter
                if const and x[0] == 'p' and x[1][0] == 'loc' and k > (1 if sret else 0) and not self.constarg(f, k, i):
                    j = k - (2 if sret else 1)
                    if not 0 <= j < len(f.params) or not f.params[j].rstrip().endswith(('&', '*')):
                        continue
                    for key in [y for y in s.mem if y[0] == x[1]]:
                        del s.mem[key]
                    for key in [y for y in s.cont if y[0] == x[1]]:
                        s.cont[key] = ('any', ('call', i.id, key), 64)
                    s.visit[('fill', x[1])] = ('ret', tname(f, n), tuple(y for y in args if y is not x), conts)
            if sret and a:
                p = self.aspt(a[0])
                s.cont[(p[1], p[2])] = ('ret', n, args[1:], conts[1:])
                for key in [y for y in s.mem if y[0] == p[1]]:
                    del s.mem[key]
                if p[1][0] == 'loc':
                    s.visit[('fill', p[1])] = ('ret', tname(f, n), args[1:], conts[1:])
            res(('call', tname(f, n) if self.ind else n, args, w, conts))

    def pure(self, f, n):
        return n.startswith('std::') and n.split('::')[-1] in ('operator==', 'operator!=', 'operator<', 'distance', 'min', 'max')

    def constarg(self, f, k, i):
        if f is None:
            return False
        ps = f.params
        j = k
        if i.get('sret'):
            j -= 1
        ismember = len(i.get('a') or ()) - (1 if i.get('sret') else 0) == len(ps) + 1
        if ismember:
            j -= 1
            if j < 0:
                return f.const
        if 0 <= j < len(ps):
            return 'const' in ps[j] and ps[j].rstrip().endswith(('const&', 'const*'))
        return False

    def container(self, i, f, cls, last, a, s, res, w):
        this = self.aspt(a[0])
        k = (this[1], this[2])
        ps = f.params
        if last == cls or (cls == 'basic_string' and last == 'basic_string'):
            rest = a[1:]
            if not rest or (len(rest) == 1 and 'allocator' in ps[-1] and cls not in ps[-1].split('allocator')[0]):
                s.cont[k] = ('empty',)
            elif len(ps) >= 1 and cls in ps[0] and len(rest) == 1:
                s.cont[k] = self.content(s, rest[0])
            else:
                s.cont[k] = ('of', cls, tuple(x for x in rest if not (x[0] == 'p' and x[1][0] == 'loc')), tuple(self.content(s, x) for x in rest if x[0] == 'p' and x[1][0] == 'loc' and self.content(s, x)[0] != 'init'))
            return True
        if last in ('operator=', 'assign') and len(a) == 2:
            if ps and cls in ps[0]:
                s.cont[k] = self.content(s, a[1])
            else:
                s.cont[k] = ('of', cls, (a[1],), ())
            res(a[0])
            return True
        if last == 'swap' and len(a) == 2:
            x, y = self.content(s, a[0]), self.content(s, a[1])
            o = self.aspt(a[1])
            s.cont[k], s.cont[(o[1], o[2])] = y, x
            return True
        if last.startswith('~'):
            if cls in ('unique_ptr', 'auto_ptr'):
                c = self.content(s, a[0])
                if c[0] == 'of' and c[2] and c[2][0][0] == 'p':
                    s.freed.append(c[2][0][1])
            s.cont[k] = ('dead', i.id)
            return True
        if cls in ('unique_ptr', 'auto_ptr') and last in ('release', 'get', 'operator->', 'operator*'):
            c = self.content(s, a[0])
            v = c[2][0] if c[0] == 'of' and c[2] else ('call', 'held', (c,), 64, ())
            if last == 'release':
                s.cont[k] = ('empty',)
            res(v)
            return True
        if last in ('clear',):
            s.cont[k] = ('empty',)
            return True
        if f.const or last in ('begin', 'end', 'rbegin', 'rend', 'data', 'c_str', 'operator[]', 'front', 'back', 'at', 'size', 'empty', 'length', 'find'):
            # a view of the object
            args = tuple(a)
            if i.get('sret'):
                return False
            res(('call', cls + '::' + last, args, w, (self.content(s, a[0]),)))
            return True
        # any other member function changes the object
        old = self.content(s, a[0])
        s.cont[k] = ('mut', last, tuple(a[1:]), tuple(self.content(s, x) for x in a[1:] if x[0] == 'p'), old)
        res(('call', cls + '::' + last, tuple(a), w, i.id))
        return True
