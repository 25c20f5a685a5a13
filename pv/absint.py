"""Abstract interpretation of one function in SSA form.

Values are hash-consed symbolic terms, memory is a map from (object, constant offset) to terms with
object epochs, and every program point carries a conjunction of facts harvested from the branch
conditions on the way to it.  Joins keep what both sides entail; loop headers keep candidate
invariants that hold on entry and are preserved by every back edge.  Linear entailment is exact
integer reasoning (pv.lin); 32/64-bit wrap-around is excluded by proof or the term stays opaque.
"""
from math import gcd
from . import lin
from .ir import split_sig

class _MaxB(dict):
    def __missing__(self, b):
        self[b] = (1 << b) - 1
        return self[b]

    def get(self, b, dflt=None):
        return self[b]


MAXB = _MaxB()
INTR = ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem')


def C(v, bits=64):
    return ('c', v & ((1 << bits) - 1), bits)


def tbits(t):
    k = t[0]
    if k == 'c':
        return t[2]
    if k in ('op', 'cast', 'cmp', 'sym', 'call', 'ld', 'phi', 'mphi', 'arg', 'sel'):
        return t[1]
    if k in ('len', 'p'):
        return 64
    return 64


def tywidth(t):
    if t.startswith('i') and t[1:].isdigit():
        return int(t[1:])
    if t == 'ptr':
        return 64
    return 0


NOFF = (0, ())


def off_add(o, c=0, term=None, coef=0):
    k = o[0] + c
    ts = dict(o[1])
    if term is not None:
        if term[0] == 'c':
            v = term[1]
            if v >= 1 << 63:
                v -= 1 << 64
            k += v * coef
        else:
            ts[term] = ts.get(term, 0) + coef
            if not ts[term]:
                del ts[term]
    return (k, tuple(sorted(ts.items(), key=repr)))


def off_sub(a, b):
    r = (a[0] - b[0], a[1])
    for t, k in b[1]:
        r = off_add(r, 0, t, -k)
    return r


def mkptr(base, off=NOFF):
    return ('p', base, off)


class Node(object):
    __slots__ = ('parent', 'fact', 'depth', '_ctx', '_set', '_imps')

    def __init__(self, parent, fact):
        self.parent = parent
        self.fact = fact
        self.depth = parent.depth + 1 if parent else 0
        self._ctx = None
        self._set = None
        self._imps = None

    def facts(self):
        r = []
        n = self
        while n is not None and n.fact is not None:
            r.append(n.fact)
            n = n.parent
        return r[::-1]

    def imps(self):
        if self._imps is None:
            p = self.parent.imps() if self.parent is not None else ()
            if self.fact is not None and self.fact[0] == 'imp':
                p = p + (self.fact,)
            self._imps = p
        return self._imps

    def fset(self):
        if self._set is None:
            self._set = frozenset(self.facts())
        return self._set


ROOT = Node(None, None)


class State(object):
    __slots__ = ('node', 'mem', 'epoch')

    def __init__(self, node=ROOT, mem=None, epoch=None):
        self.node = node
        self.mem = mem if mem is not None else {}
        self.epoch = epoch if epoch is not None else {}

    def copy(self):
        return State(self.node, dict((b, dict(c)) for b, c in self.mem.items()), dict(self.epoch))

    def assume(self, f):
        if f is None:
            return
        fs = self.node.fset()
        if f in fs:
            return
        self.node = Node(self.node, f)
        # guarded facts released by f
        for g in self.node.imps():
            if g[1] == f:
                for h in g[2]:
                    self.assume(h)


class Engine(object):
    def __init__(self, prog, fn, models, hooks=None, opts=None):
        self.restride = False
        self.loop_phi = {}
        self.prog = prog
        self.fn = fn
        self.cfg = fn.cfg()
        self.models = models
        self.hooks = hooks
        self.opts = opts or {}
        self.env = {}
        self.out = {}        # (block, succ) -> State
        self.inst = {}
        self.loopvar = {}    # header -> set of (base, key)
        self.loopepoch = {}  # header -> set of bases
        self.inv = {}        # header -> list of facts
        self.dead = set()    # rejected invariants
        self.phi_edges = {}  # phi term -> [(pred block, value, node)]
        self.final = False
        self.passes = 0
        self.unmodelled = []
        self.guards = {}
        self.loopsub = {}

    # ------------------------------------------------------------------ values
    def term(self, op, st=None):
        if isinstance(op, int):
            if op in self.env:
                return self.env[op]
            if op in self.fn.argidx:
                return self.argterm(op)
            return ('sym', 64, 'undef', op)
        k = op[0]
        if k == 'c':
            return C(int(op[1]), op[2])
        if k == 'n':
            return C(0, 64)
        if k == 'g':
            return mkptr(('glob', op[1]))
        if k == 'f':
            return ('fn', op[1])
        if k == 'o':
            b = self.term(op[1])
            if b[0] == 'p':
                return mkptr(b[1], off_add(b[2], op[2]))
            return b
        if k == 'u':
            return ('sym', 64, 'undef')
        return ('sym', 64, 'const', repr(op))

    def argterm(self, vid):
        k = self.fn.argidx[vid]
        a = self.fn.args[k]
        if a['t'] == 'ptr':
            return mkptr(('arg', k))
        b = self.opts.get('bind')
        if b and k in b:
            return b[k]
        return ('arg', tywidth(a['t']) or 64, k, self.fn.mangled)

    # ------------------------------------------------------------------ memory
    def epoch_of(self, st, base):
        return st.epoch.get(base, 'init')

    def read(self, st, base, off, size, kind='v'):
        """off: off tuple"""
        cells = st.mem.get(base)
        if not off[1]:
            key = (kind, off[0])
            if cells is not None and key in cells:
                sz, t = cells[key]
                if t == ('zero',) and sz >= size:
                    return C(0, size * 8)
                if sz == size:
                    return t
                if sz > size and tbits(t) > size * 8 and kind == 'v' and t[0] != 'p':
                    return self.mkcast('trunc', tbits(t), size * 8, t)
            # partially overlapping earlier store
            if cells is not None and kind == 'v':
                ov = []
                for (k2, o2), (s2, t2) in cells.items():
                    if k2 == 'v' and o2 < off[0] + size and off[0] < o2 + s2:
                        if o2 <= off[0] and off[0] + size <= o2 + s2 and t2[0] in ('zero', 'c') and (t2[0] == 'zero' or t2[1] == 0):
                            return C(0, size * 8)
                        ov.append((o2, s2, t2))
                if ov:
                    return ('sym', size * 8, 'ovl', base, off, self.epoch_of(st, base), tuple(sorted(ov, key=repr)))
        if cells is not None and kind == 'v' and not off[1]:
            for (k2, o2), (s2, t2) in cells.items():
                if k2 == 'cp' and o2 < off[0] + size and off[0] < o2 + s2 and not (o2 <= off[0] and off[0] + size <= o2 + s2):
                    return ('sym', size * 8, 'ovl', base, off, self.epoch_of(st, base), t2)
                if k2 == 'cp' and o2 <= off[0] and off[0] + size <= o2 + s2:
                    return ('ld', size * 8, t2[1], off_add(t2[2], off[0] - o2), t2[4], 'v')
        return ('ld', size * 8, base, off, self.epoch_of(st, base), kind)

    def write(self, st, base, off, size, t, kind='v', ins=None):
        if off[1]:
            self.havoc(st, base, ('ws', ins.id if ins and ins.id is not None else (ins.bb, ins.idx) if ins else None), contents_only=True)
            return
        self.unalias(st, base, ('w', ins.bb, ins.idx) if ins else 'w')
        cells = st.mem.setdefault(base, {})
        if kind == 'v':
            self.clobber(cells, off[0], size, ('v',))
        cells[(kind, off[0])] = (size, t)

    def clobber(self, cells, off, size, kinds):
        """removes [off, off+size) from the cells of these kinds, keeping what lies outside"""
        for (k2, o2) in list(cells):
            if k2 not in kinds:
                continue
            s2, t2 = cells[(k2, o2)]
            if not (o2 < off + size and off < o2 + s2):
                continue
            del cells[(k2, o2)]
            for lo, hi in ((o2, off), (off + size, o2 + s2)):
                if lo >= hi:
                    continue
                if t2 == ('zero',):
                    r = t2
                elif t2[0] == 'c' and t2[1] == 0:
                    r = ('zero',)
                elif k2 == 'cp':
                    r = ('cpy', t2[1], off_add(t2[2], lo - o2), hi - lo, t2[4])
                else:
                    r = ('sym', (hi - lo) * 8, 'frag', t2, lo - o2)
                cells[(k2, lo)] = (hi - lo, r)

    def unalias(self, st, base, token):
        """a write through one element of a vector may change any other element of it"""
        if base[0] == 'obj' and base[1][0] == 'elem':
            for b in set(st.mem) | set(st.epoch):
                if b != base and b[0] == 'obj' and b[1][0] == 'elem' and b[1][2] == base[1][2]:
                    st.mem.pop(b, None)
                    st.epoch[b] = ('h', token)

    def havoc(self, st, base, token, contents_only=False):
        self.unalias(st, base, token)
        st.mem.pop(base, None)
        st.epoch[base] = ('h', token)
        # objects reached through pointers stored in this object
        for b in list(st.mem):
            if b[0] == 'obj' and self.rooted(b, base):
                st.mem.pop(b, None)
                st.epoch[b] = ('h', token)
        for b in list(st.epoch):
            if b[0] == 'obj' and b != base and self.rooted(b, base):
                st.epoch[b] = ('h', token)

    def rooted(self, b, base):
        t = b[1]
        seen = 0
        while seen < 20:
            seen += 1
            if not isinstance(t, tuple):
                return False
            if t[0] == 'ld':
                nb = t[2]
                if nb == base:
                    return True
                if nb[0] == 'obj':
                    t = nb[1]
                    continue
                return False
            if t[0] == 'call':
                for a in t[3:]:
                    if isinstance(a, tuple) and a and a[0] == 'p':
                        if a[1] == base:
                            return True
                        if a[1][0] == 'obj' and self.rooted(a[1], base):
                            return True
                return False
            return False
        return False

    def asptr(self, t):
        """term -> (base, off)"""
        if t[0] == 'p':
            return t[1], t[2]
        return ('obj', t), NOFF

    # ------------------------------------------------------------------ term construction
    def mkcast(self, op, fb, tb, a):
        if a[0] == 'c':
            v = a[1]
            if op == 'sext' and v >> (fb - 1):
                v -= 1 << fb
            return C(v, tb)
        if op == 'trunc' and a[0] == 'cast' and a[2] in ('zext', 'sext'):
            inner = a[4]
            if a[3] == tb:
                return inner
            if a[3] > tb:
                return ('cast', tb, 'trunc', a[3], inner)
            if a[2] == 'zext' and a[3] < tb:
                return ('cast', tb, 'zext', a[3], inner)
        if op == 'zext' and a[0] == 'cast' and a[2] == 'zext':
            return ('cast', tb, 'zext', a[3], a[4])
        return ('cast', tb, op, fb, a)

    def mkop(self, op, bits, a, b):
        if a[0] == 'c' and b[0] == 'c':
            m = (1 << bits) - 1
            x, y = a[1], b[1]
            try:
                v = {'add': x + y, 'sub': x - y, 'mul': x * y, 'and': x & y, 'or': x | y, 'xor': x ^ y}.get(op)
                if v is None:
                    if op == 'udiv' and y:
                        v = x // y
                    elif op == 'urem' and y:
                        v = x % y
                    elif op == 'shl' and y < bits:
                        v = x << y
                    elif op == 'lshr' and y < bits:
                        v = x >> y
                if v is not None:
                    return C(v & m, bits)
            except Exception:
                pass
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr') and b == C(0, bits):
            return a
        if op == 'add' and a == C(0, bits):
            return b
        if op == 'mul' and b == C(1, bits):
            return a
        if op in ('add', 'mul', 'and', 'or', 'xor'):
            # canonical operand order, constants last
            if a[0] == 'c' or (b[0] != 'c' and repr(b) < repr(a)):
                a, b = b, a
        if op == 'sub' and b[0] == 'c':
            return self.mkop('add', bits, a, C(-b[1], bits)) if False else ('op', bits, 'sub', a, b)
        return ('op', bits, op, a, b)

    # ------------------------------------------------------------------ linearisation
    def ctx(self, node):
        if node._ctx is None:
            if node.parent is None:
                c = lin.Ctx()
            else:
                c = lin.Ctx(self.ctx(node.parent))
                self.push_fact(c, node.fact)
            node._ctx = c
        return node._ctx

    def atom(self, c, t):
        """registers the ranges and side conditions of an opaque term"""
        if t in c.ranges:
            return {t: 1}
        b = tbits(t)
        c.ranges[t] = (0, MAXB.get(b, (1 << 64) - 1))
        k = t[0]
        if k == 'len':
            c.ranges[t] = (0, 1 << 31)
        elif k == 'op':
            op, x, y = t[2], t[3], t[4]
            if op == 'udiv' and y[0] == 'c' and y[1]:
                lx = self.lz(c, x)
                c.add(lin.add({t: y[1]}, lx, 1, -1))                      # y*t <= x
                c.add(lin.add(lx, {t: -y[1], 1: -(y[1] - 1)}))            # x <= y*t + y-1
            elif op == 'lshr' and y[0] == 'c':
                m = 1 << y[1]
                lx = self.lz(c, x)
                c.add(lin.add({t: m}, lx, 1, -1))
                c.add(lin.add(lx, {t: -m, 1: -(m - 1)}))
                c.ranges[t] = (0, MAXB[b] >> y[1])
            elif op == 'urem':
                lx = self.lz(c, x)
                c.add(lin.add({t: 1}, lx, 1, -1))
                if y[0] == 'c' and y[1]:
                    c.ranges[t] = (0, y[1] - 1)
            elif op == 'and':
                if y[0] == 'c':
                    c.ranges[t] = (0, y[1])
                    inv = (~y[1]) & MAXB[b]
                    if inv and (inv & (inv + 1)) == 0:  # mask clears low bits: align down
                        lx = self.lz(c, x)
                        c.add(lin.add(lx, {t: -1, 1: -inv}))              # x - t <= inv
                lx = self.lz(c, x)
                c.add(lin.add({t: 1}, lx, 1, -1))
                ly = self.lz(c, y)
                c.add(lin.add({t: 1}, ly, 1, -1))
            elif op == 'or':
                lx = self.lz(c, x)
                ly = self.lz(c, y)
                c.add(lin.add(lx, {t: -1}))
                c.add(lin.add(ly, {t: -1}))
                c.add(lin.add({t: 1}, lin.add(lx, ly), 1, -1))
            elif op == 'sub':
                pass
        elif k == 'phi' and isinstance(t[-1], str) and t[-1][0] == 'x':
            # steps of g bytes made inside one object
            c.ranges[t] = (0, (1 << 63) // int(t[-1][1:]))
        elif k == 'cast' and t[2] == 'trunc':
            lx = self.lz(c, t[4])
            c.add(lin.add({t: 1}, lx, 1, -1))                             # trunc(x) <= x
        elif k == 'sel':
            # select(c, a, b): bounded by both when comparable
            pass
        elif k == 'call':
            if t[2] == 'cstrlen':
                c.ranges[t] = (0, 1 << 31)
            h = self.models.get('side:' + t[2])
            if h:
                h(self, c, t)
        elif k == 'ld' and self.opts.get('ldrange'):
            r = self.opts['ldrange'](t)
            if r:
                c.ranges[t] = r
        return {t: 1}

    def lz(self, c, t):
        """linear form of the unsigned value of scalar term t under context c"""
        k = t[0]
        if k == 'c':
            return lin.const(t[1])
        m = c.memo.get(('lz', t))
        if m is not None:
            return m
        r = self._lz(c, t)
        c.memo[('lz', t)] = r
        return r

    def _lz(self, c, t):
        k = t[0]
        if k == 'cast':
            if t[2] == 'zext':
                return self.lz(c, t[4])
            if t[2] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.atom(c, t)
            x = self.lz(c, t[4])
            if t[2] == 'sext':
                if c.entails(lin.add(x, lin.const(-(1 << (t[3] - 1)) + 1))):
                    return x
            elif t[2] == 'trunc':
                if c.entails(lin.add(x, lin.const(-MAXB[t[1]]))):
                    return x
            return self.atom(c, t)
        if k == 'op':
            op, bits = t[2], t[1]
            M = (1 << bits) - 1
            if op == 'add':
                a, b = self.lz(c, t[3]), self.lz(c, t[4])
                s = lin.add(a, b)
                if t[4][0] == 'c' and t[4][1] > (M >> 1):
                    # adding a negative constant
                    s2 = lin.add(a, lin.const(t[4][1] - (1 << bits)))
                    if c.entails(lin.scale(s2, -1)):
                        return s2
                if c.entails(lin.add(s, lin.const(-M))):
                    return s
            elif op == 'sub':
                a, b = self.lz(c, t[3]), self.lz(c, t[4])
                d = lin.add(a, b, 1, -1)
                if c.entails(lin.scale(d, -1)):
                    return d
                # (x + y) - z in modular arithmetic where the sum itself wraps is left opaque
                if t[3][0] == 'op' and t[3][2] == 'add':
                    # x + y - z  with x >= z or y >= z
                    x, y = self.lz(c, t[3][3]), self.lz(c, t[3][4])
                    if t[3][4][0] == 'c' and t[3][4][1] > (M >> 1):
                        y = lin.const(t[3][4][1] - (1 << bits))
                    d = lin.add(lin.add(x, y), b, 1, -1)
                    if c.entails(lin.scale(d, -1)) and c.entails(lin.add(d, lin.const(-M))):
                        return d
            elif op == 'mul':
                for x, y in ((t[3], t[4]), (t[4], t[3])):
                    if y[0] == 'c':
                        s = lin.scale(self.lz(c, x), y[1])
                        if c.entails(lin.add(s, lin.const(-M))):
                            return s
            elif op == 'shl' and t[4][0] == 'c' and t[4][1] < bits:
                s = lin.scale(self.lz(c, t[3]), 1 << t[4][1])
                if c.entails(lin.add(s, lin.const(-M))):
                    return s
            elif op == 'xor' and t[4] == C(M, bits):
                return lin.add(lin.const(M), self.lz(c, t[3]), 1, -1)
            if op in ('add', 'sub', 'mul', 'shl'):
                # exact modulo 2^bits: equal to the value when it provably lies in range
                e = self.mlz(c, t, bits)
                if e is not None and c.entails(lin.scale(e, -1)) and c.entails(lin.add(e, lin.const(-M))):
                    return e
                if e is not None and self.opts.get('wrap'):
                    for d in (M + 1, -M - 1):
                        x = lin.add(e, lin.const(d))
                        if c.entails(lin.scale(x, -1)) and c.entails(lin.add(x, lin.const(-M))):
                            return x
            return self.atom(c, t)
        return self.atom(c, t)

    def mlz(self, c, t, bits, depth=0):
        """integer linear form congruent to t modulo 2^bits"""
        if depth > 8:
            return None
        if t[0] == 'c':
            return lin.const(t[1] if t[1] <= (1 << (bits - 1)) else t[1] - (1 << bits))
        if t[0] == 'op' and t[1] == bits:
            if t[2] in ('add', 'sub'):
                a, b = self.mlz(c, t[3], bits, depth + 1), self.mlz(c, t[4], bits, depth + 1)
                if a is None or b is None:
                    return None
                return lin.add(a, b, 1, 1 if t[2] == 'add' else -1)
            if t[2] == 'mul' and t[4][0] == 'c' or t[2] == 'shl' and t[4][0] == 'c' and t[4][1] < bits:
                k = t[4][1] if t[2] == 'mul' else 1 << t[4][1]
                a = self.mlz(c, t[3], bits, depth + 1)
                return None if a is None else lin.scale(a, k)
        return self.lz(c, t)

    def lzoff(self, c, off):
        r = lin.const(off[0])
        for t, k in off[1]:
            # pointer arithmetic is exact (inbounds): a negated operand is a subtraction
            if t[0] == 'op' and t[2] == 'sub' and t[3] == C(0, 64):
                r = lin.add(r, self.lz(c, t[4]), 1, -k)
            else:
                r = lin.add(r, self.lz(c, t), 1, k)
        return r

    def linfact(self, c, f):
        r = {}
        for x, k in f[1]:
            if x == 1:
                r = lin.add(r, lin.const(k))
            else:
                r = lin.add(r, self.lz(c, x), 1, k)
        return r

    def slz(self, c, t):
        """linear form of the signed value of t, or None"""
        bits = tbits(t)
        h = (1 << (bits - 1)) - 1
        if t[0] == 'c':
            v = t[1]
            return lin.const(v if v <= h else v - (1 << bits))
        if t[0] == 'op' and t[2] == 'sub':
            d = lin.add(self.lz(c, t[3]), self.lz(c, t[4]), 1, -1)
            if c.entails(lin.add(d, lin.const(-h))) and c.entails(lin.add(lin.scale(d, -1), lin.const(-h))):
                return d
        x = self.lz(c, t)
        if c.entails(lin.add(x, lin.const(-h))):
            return x
        return None

    def push_fact(self, c, f):
        k = f[0]
        if k == 'lin':
            c.add(self.linfact(c, f))
            return
        if k in ('ule', 'ult'):
            a, b = self.lz(c, f[1]), self.lz(c, f[2])
            c.add(lin.add(a, lin.add(b, lin.const(-1 if k == 'ult' else 0)), 1, -1))
        elif k == 'eq':
            a, b = self.lz(c, f[1]), self.lz(c, f[2])
            d = lin.add(a, b, 1, -1)
            c.add(d)
            c.add(lin.scale(d, -1))
            # a comparison result or masked value being a constant carries nothing more
        elif k == 'ne':
            a, b = self.lz(c, f[1]), self.lz(c, f[2])
            d = lin.add(a, b, 1, -1)
            if c.entails(d):
                c.add(lin.add(d, lin.const(1)))
            elif c.entails(lin.scale(d, -1)):
                c.add(lin.add(lin.scale(d, -1), lin.const(1)))
            if f[1][0] != 'c' and f[2][0] != 'c' and tbits(f[1]) == tbits(f[2]) and tbits(f[1]) in (32, 64):
                for x, y in ((f[1], f[2]), (f[2], f[1])):
                    c.add(lin.add(lin.const(1), self.lz(c, self.mkop('sub', tbits(x), x, y)), 1, -1))
        elif k in ('sle', 'slt'):
            bits = tbits(f[1])
            h = (1 << (bits - 1)) - 1
            s = -1 if k == 'slt' else 0
            a, b = self.slz(c, f[1]), self.slz(c, f[2])
            if a is None and b is not None:
                pass
            if a is not None and b is None and c.entails(lin.scale(a, -1)):
                # 0 <= a <= b signed: b is non-negative
                b = self.lz(c, f[2])
                c.add(lin.add(b, lin.const(-h)))
            if a is not None and b is not None:
                c.add(lin.add(a, lin.add(b, lin.const(s)), 1, -1))
        h = self.models.get('onfact')
        if h:
            h(self, c, f)

    def prove(self, st, kind, a, b):
        c = self.ctx(st.node)
        x, y = self.lz(c, a), self.lz(c, b)
        return self.prove_lin(c, kind, x, y)

    def prove_lin(self, c, kind, x, y):
        d = lin.add(x, y, 1, -1)
        if kind == 'ule':
            return c.entails(d)
        if kind == 'ult':
            return c.entails(lin.add(d, lin.const(1)))
        if kind == 'eq':
            return c.entails(d) and c.entails(lin.scale(d, -1))
        if kind == 'ne':
            return c.entails(lin.add(d, lin.const(1))) or c.entails(lin.add(lin.scale(d, -1), lin.const(1)))
        return False

    def holds(self, node, f):
        if f in node.fset():
            return True
        c = self.ctx(node)
        if f[0] == 'lin':
            return c.entails(self.linfact(c, f))
        if f[0] in ('ule', 'ult', 'eq', 'ne'):
            return self.prove_lin(c, f[0], self.lz(c, f[1]), self.lz(c, f[2]))
        return False

    # ------------------------------------------------------------------ conditions
    def cond_facts(self, t, val, depth=0):
        """facts implied by boolean term t being val"""
        r = []
        if depth > 12:
            return r
        if t[0] == 'cmp':
            op, a, b = t[2], t[3], t[4]
            if not val:
                op = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult',
                      'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt'}.get(op)
            if op is None:
                return r
            if a[0] == 'p' or b[0] == 'p':
                r.append((('p' + op), a, b))
                if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                    pass
                return r
            # boolean compared with constant
            if op in ('eq', 'ne') and b[0] == 'c' and tbits(a) == 1:
                return self.cond_facts(a, (b[1] == 1) == (op == 'eq'), depth + 1)
            if op in ('eq', 'ne') and b[0] == 'c' and b[1] == 0 and a[0] == 'cast' and a[2] == 'zext' and a[3] == 1:
                return self.cond_facts(a[4], op == 'ne', depth + 1)
            if op in ('ugt', 'uge', 'sgt', 'sge'):
                op = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[op]
                a, b = b, a
            # x + y < x overflow idiom:   not(x+y < x)  ->  no wrap
            if op == 'ule' and b[0] == 'op' and b[2] == 'add' and a in (b[3], b[4]):
                other = b[4] if a == b[3] else b[3]
                r.append(('nowrap', a, other))
            r.append((op, a, b))
            return r
        if t[0] == 'op' and tbits(t) == 1:
            if t[2] == 'and' and val or t[2] == 'or' and not val:
                return self.cond_facts(t[3], val, depth + 1) + self.cond_facts(t[4], val, depth + 1)
            if t[2] == 'xor' and t[4] == C(1, 1):
                return self.cond_facts(t[3], not val, depth + 1)
        if t[0] == 'sel' and tbits(t) == 1:
            c, a, b = t[2], t[3], t[4]
            if val and b == C(0, 1):
                return self.cond_facts(c, True, depth + 1) + self.cond_facts(a, True, depth + 1)
            if not val and a == C(1, 1):
                return self.cond_facts(c, False, depth + 1) + self.cond_facts(b, False, depth + 1)
            if val and a == C(0, 1):
                return self.cond_facts(c, False, depth + 1) + self.cond_facts(b, True, depth + 1)
            if not val and b == C(1, 1):
                return self.cond_facts(c, True, depth + 1) + self.cond_facts(a, False, depth + 1)
        if t[0] == 'cast' and t[2] == 'zext' and t[3] == 1:
            return self.cond_facts(t[4], val, depth + 1)
        if t[0] == 'cast' and t[2] == 'trunc' and t[1] == 1:
            inner = t[4]
            if inner[0] == 'cast' and inner[2] == 'zext' and inner[3] == 1:
                return self.cond_facts(inner[4], val, depth + 1)
        if t[0] in ('phi', 'mphi') and tbits(t) in (1, 8):
            es = self.phi_edges.get(t)
            if es:
                live = []
                for (pb, v, node) in es:
                    if v[0] == 'c' and bool(v[1]) != val:
                        continue
                    live.append((pb, v, node))
                if len(live) == 1:
                    pb, v, node = live[0]
                    r += [f for f in node.facts()]
                    r += self.cond_facts(v, val, depth + 1)
                elif live:
                    common = None
                    for pb, v, node in live:
                        s = set(node.fset()) | set(self.cond_facts(v, val, depth + 1))
                        common = s if common is None else common & s
                    r += sorted(common, key=repr)
        r.append(('true' if val else 'false', t))
        return r

    def add_facts(self, st, fs):
        for f in fs:
            if f[0] == 'nowrap':
                a, b = f[1], f[2]
                bits = tbits(a)
                # a + b <= 2^bits-1 as a linear fact
                c = self.ctx(st.node)
                l = lin.add(lin.add(self.lz(c, a), self.lz(c, b)), lin.const(-MAXB[bits]))
                st.assume(('lin', tuple(sorted(l.items(), key=repr))))
            else:
                st.assume(f)

    def infeasible(self, st):
        c = self.ctx(st.node)
        return c.contradictory()

    # ------------------------------------------------------------------ joins
    def join(self, block, ins):
        """ins: list of (pred, State)"""
        self.guards = {}
        if len(ins) == 1:
            return ins[0][1].copy()
        a = ins[0][1]
        res = State()
        # facts
        nodes = [s.node for _, s in ins]
        common = None
        for n in nodes:
            s = n.fset()
            common = s if common is None else common & s
        # keep order of first
        keep = [f for f in nodes[0].facts() if f in common]
        cand = []
        for n in nodes:
            for f in n.facts():
                if f not in common and f not in cand and f[0] in ('ule', 'ult', 'eq', 'ne', 'lin'):
                    cand.append(f)
        if len(cand) <= 60:
            for f in cand:
                if all(self.holds(n, f) for n in nodes):
                    keep.append(f)
        node = ROOT
        # reuse the longest shared prefix
        anc = nodes[0]
        paths = []
        for n in nodes:
            p = set()
            x = n
            while x is not None:
                p.add(id(x))
                x = x.parent
            paths.append(p)
        while anc is not None and not all(id(anc) in p for p in paths):
            anc = anc.parent
        node = anc if anc is not None else ROOT
        have = node.fset()
        for f in keep:
            if f not in have:
                node = Node(node, f)
        # guarded facts: what holds on one incoming edge holds whenever the other edges are excluded
        self.guards = {}
        if len(nodes) <= 6:
            for k, n in enumerate(nodes):
                oth = None
                for j, m in enumerate(nodes):
                    if j != k:
                        oth = m.fset() if oth is None else oth & m.fset()
                mine = n.fset()
                if self.opts.get('phiguard'):
                    self.guards[ins[k][0]] = [negate(g) for g in sorted(oth - mine, key=repr) if negate(g) in mine][:3]
                fs = [f for f in n.facts() if f not in have and f not in keep and f[0] != 'imp']
                if not fs or len(fs) > 60:
                    continue
                for g in oth - mine:
                    ng = negate(g)
                    if ng is None or ng not in mine:
                        continue
                    r = tuple(f for f in fs if f != ng)
                    if r:
                        node = Node(node, ('imp', ng, r))
        res.node = node
        # memory
        bases = set()
        for _, s in ins:
            bases |= set(s.mem) | set(s.epoch)
        for b in bases:
            eps = [s.epoch.get(b, 'init') for _, s in ins]
            if any(e != eps[0] for e in eps):
                res.epoch[b] = ('m', block, b)
            elif eps[0] != 'init':
                res.epoch[b] = eps[0]
            keys = set()
            for _, s in ins:
                keys |= set(s.mem.get(b, {}))
            cells = {}
            for k in keys:
                vals = []
                for _, s in ins:
                    c = s.mem.get(b, {})
                    if k in c:
                        vals.append(c[k])
                    else:
                        vals.append(None)
                if all(v == vals[0] for v in vals) and vals[0] is not None:
                    cells[k] = vals[0]
                else:
                    sz = [v for v in vals if v is not None][0][0]
                    if k[0] == 'cp':
                        cells.setdefault(('v', k[1]), (sz, ('mphi', sz * 8, block, b, ('v', k[1]))))
                        continue
                    if k[0] == 'g':
                        vs = [v[1] if v is not None else ('ld', sz * 8, b, (k[1], ()), self.epoch_of(s, b), 'g') for (_, s), v in zip(ins, vals)]
                    elif k[0] == 'v':
                        vs = []
                        for (_, s), v in zip(ins, vals):
                            vs.append(v[1] if v is not None and v[0] == sz else ('ld', sz * 8, b, (k[1], ()), self.epoch_of(s, b), 'v'))
                    else:
                        vs = [v[1] if v is not None else ('sv', b, k[1], self.epoch_of(s, b)) for (_, s), v in zip(ins, vals)]
                    cells[k] = (sz, self.joinval(block, ('mphi', sz * 8 if k[0] in 'vg' else 64, block, b, k), [(p, v, s.node) for (p, s), v in zip(ins, vs)], res))
            if cells:
                res.mem[b] = cells
        return res

    def joinval(self, block, phi, vals, st):
        """phi value of several (pred, value, node); may add facts about it to st"""
        v0 = vals[0][1]
        if all(v == v0 for _, v, _ in vals):
            return v0
        if all(v[0] == 'p' for _, v, _ in vals) and all(v[1] == v0[1] for _, v, _ in vals):
            t = ('phi', 64) + tuple(phi[2:]) + ('off',)
            sub = [(p, self.offterm(v[2]), n) for p, v, n in vals]
            r = self.joinval(block, t, sub, st)
            return mkptr(v0[1], off_add(NOFF, 0, r, 1))
        self.phi_edges[phi] = vals
        if phi[0] == 'sv' or tbits(phi) < 8:
            return phi
        for p, v, _ in vals:
            if v[0] in ('p', 'zero', 'raw', 'virt'):
                continue
            for g in self.guards.get(p, ()):
                st.node = Node(st.node, ('imp', g, (('eq', phi, v),)))
        if any(v[0] in ('p', 'sv', 'zero') for _, v, _ in vals):
            return phi
        # relational facts
        c0 = self.ctx(st.node)
        cands = []
        for _, v, n in vals:
            if v[0] != 'c' or True:
                cands.append(('ule', phi, v))
                cands.append(('ule', v, phi))
        for _, v, n in vals:
            for f in n.facts()[-40:]:
                if f[0] in ('ule', 'ult') and (f[1] == v or f[2] == v):
                    cands.append((f[0], phi if f[1] == v else f[1], phi if f[2] == v else f[2]))
                elif f[0] in ('eq', 'ne') and (f[1] == v or f[2] == v) and v[0] != 'c':
                    cands.append((f[0], phi if f[1] == v else f[1], phi if f[2] == v else f[2]))
        done = set()
        for f in cands[:80]:
            if f in done:
                continue
            done.add(f)
            if all(self.holds(n, subst(f, {phi: v})) for _, v, n in vals):
                st.assume(f)
        # linear relations phi = v with substituted linear facts
        return phi

    def offterm(self, off):
        if not off[1]:
            return C(off[0], 64)
        t = None
        for x, k in off[1]:
            y = x if k == 1 else self.mkop('mul', 64, x, C(k, 64))
            t = y if t is None else self.mkop('add', 64, t, y)
        if off[0]:
            t = self.mkop('add', 64, t, C(off[0], 64))
        return t

    # ------------------------------------------------------------------ driver
    def run(self):
        for it in range(60):
            self.passes = it + 1
            changed = self.one_pass()
            if not changed:
                break
        else:
            # did not stabilise: drop all invariants
            self.inv = {}
            self.gen_done = True
            self.one_pass()
        self.final = True
        self.one_pass()
        self.close_phis()
        return self

    def close_phis(self):
        """all incoming values of the loop-header phis"""
        cfg = self.cfg
        for h in cfg.loops:
            for i in self.fn.blocks[h]:
                if i.op != 'phi':
                    break
                t = self.env.get(i.id)
                if t is None:
                    continue
                d = dict((x, y) for x, y in i.get('in'))
                self.loop_phi[t] = [(p, self.term(d[p]), self.out[(p, h)].node) for p in cfg.pred[h] if (p, h) in self.out]

    def one_pass(self):
        cfg = self.cfg
        self.env = {}
        self.out = {}
        self.phi_edges = {}
        self.ptrinfo = {}
        changed = False
        headers = {}
        for b in cfg.rpo:
            ins = []
            for p in cfg.pred[b]:
                if (p, b) in self.out and not (b in cfg.loops and p in cfg.loops[b]):
                    ins.append((p, self.out[(p, b)]))
            if b == 0:
                st = State()
                self.init_state(st)
            elif not ins:
                continue
            else:
                st = self.join(b, ins)
            if b in cfg.loops:
                # phis first with entry values
                entry = {}
                for i in self.fn.blocks[b]:
                    if i.op != 'phi':
                        break
                    vals = [(p, self.term(dict((x, y) for x, y in i.get('in'))[p]), s.node) for p, s in ins]
                    e = self.joinval(b, ('phi', tywidth(i.get('t')) or 64, b, i.id, 'entry'), vals, st)
                    entry[i.id] = e
                for bs in self.loopepoch.get(b, ()):
                    st.epoch[bs] = ('l', b, bs)
                mentry = {}
                for (bs, k) in self.loopvar.get(b, ()):
                    if k[0] == 'cp':
                        sz = self.lv_size.get((bs, k), 8)
                        st.mem.setdefault(bs, {}).pop(k, None)
                        st.mem[bs][('v', k[1])] = (sz, ('mphi', sz * 8, b, bs, ('v', k[1])))
                        continue
                    cur = st.mem.get(bs, {}).get(k)
                    sz = cur[0] if cur else self.lv_size.get((bs, k), 8)
                    if cur is None:
                        e = ('ld', sz * 8, bs, (k[1], ()), 'init', 'v') if k[0] == 'v' else ('ld', sz * 8, bs, (k[1], ()), self.epoch_of(st, bs), 'g') if k[0] == 'g' else ('sv', bs, k[1], self.epoch_of(st, bs))
                    else:
                        e = cur[1]
                    t = ('mphi', sz * 8 if k[0] == 'v' else 64, b, bs, k)
                    mentry[t] = e
                    st.mem.setdefault(bs, {})[k] = (sz, self.wrapptr(t, e, (bs, k)))
                for i in self.fn.blocks[b]:
                    if i.op != 'phi':
                        break
                    w = tywidth(i.get('t')) or 64
                    e = entry[i.id]
                    t = ('phi', w, b, i.id)
                    self.env[i.id] = self.wrapptr(t, e, i.id)
                headers[b] = (entry, mentry, st, ins)
                for f in self.inv.get(b, ()):
                    st.assume(f)
                headers[b] = (entry, mentry, st.copy(), ins)
            else:
                for i in self.fn.blocks[b]:
                    if i.op != 'phi':
                        break
                    d = dict((x, y) for x, y in i.get('in'))
                    vals = [(p, self.term(d[p]), s.node) for p, s in ins]
                    self.env[i.id] = self.joinval(b, ('phi', tywidth(i.get('t')) or 64, b, i.id), vals, st)
            self.block(b, st)
        # back edges
        if not self.final:
            for h, (entry, mentry, hst, hins) in headers.items():
                back = [(p, self.out[(p, h)]) for p in cfg.pred[h] if p in cfg.loops[h] and (p, h) in self.out]
                if not back:
                    continue
                if self.check_memory(h, hst, back):
                    changed = True
            if not changed:
                for h, (entry, mentry, hst, hins) in headers.items():
                    back = [(p, self.out[(p, h)]) for p in cfg.pred[h] if p in cfg.loops[h] and (p, h) in self.out]
                    if back and self.check_inv(h, entry, mentry, hst, hins, back):
                        changed = True
        return changed

    lv_size = {}

    def wrapptr(self, t, e, key):
        if e[0] == 'p':
            # pointer that moves inside one object keeps its base
            if key in self.opts.setdefault('ptrphi', {}).get(self.fn.mangled, {}):
                return ('sym', 64, 'ptr', t)
            g = self.opts.setdefault('stride', {}).get((self.fn.mangled,) + tuple(t[2:]), 1)
            if g > 1:
                # moves in steps of g bytes: counted in steps from where it starts
                x = ('phi', 64) + tuple(t[2:]) + ('x%d' % g,)
                r = mkptr(e[1], off_add(e[2], 0, x, g))
            else:
                x = ('phi', 64) + tuple(t[2:]) + ('off',)
                r = mkptr(e[1], off_add(NOFF, 0, x, 1))
            self.ptrinfo[r] = (x, e[2] if g > 1 else NOFF, g, (self.fn.mangled,) + tuple(t[2:]))
            return r
        return t

    def check_memory(self, h, hst, back):
        ch = False
        lv = self.loopvar.setdefault(h, set())
        le = self.loopepoch.setdefault(h, set())
        for p, s in back:
            for b in set(hst.mem) | set(s.mem) | set(s.epoch) | set(hst.epoch):
                if s.epoch.get(b, 'init') != hst.epoch.get(b, 'init') and b not in le:
                    le.add(b)
                    ch = True
                hc, sc = hst.mem.get(b, {}), s.mem.get(b, {})
                for k in set(hc) | set(sc):
                    if hc.get(k) != sc.get(k) and (b, k) not in lv:
                        if b[0] == 'alloca' and k not in hc and False:
                            continue
                        lv.add((b, k))
                        if self.opts.get('dbg'):
                            print('PASS', self.passes, 'header', h, 'var', b, k)
                        self.lv_size[(b, k)] = (hc.get(k) or sc.get(k))[0]
                        ch = True
        return ch

    def check_inv(self, h, entry, mentry, hst, hins, back):
        ch = False
        # substitution maps
        esub = {}
        backsub = [dict() for _ in back]
        phis = []
        d_in = {}
        for i in self.fn.blocks[h]:
            if i.op != 'phi':
                break
            t = self.env[i.id]
            d = dict((x, y) for x, y in i.get('in'))
            self.sub_add(t, entry[i.id], esub)
            phis.append(t)
            for k, (p, s) in enumerate(back):
                self.sub_add(t, self.term(d[p]), backsub[k], True)
        for t, e in mentry.items():
            bs, key = t[3], t[4]
            hv = hst.mem[bs][key][1]
            self.sub_add(hv, e, esub)
            phis.append(hv)
            for k, (p, s) in enumerate(back):
                c = s.mem.get(bs, {}).get(key)
                v = c[1] if c else ('sym', t[1], 'lost', bs, key, p)
                self.sub_add(hv, v, backsub[k], True)
        self.loopsub[h] = (esub, backsub)
        if self.restride:
            self.restride = False
            return True
        # existing invariants must be preserved
        cur = self.inv.setdefault(h, [])
        for f in list(cur):
            ok = all(self.holds(s.node, subst(f, backsub[k])) for k, (p, s) in enumerate(back))
            if not ok:
                cur.remove(f)
                self.dead.add((h, f))
                if self.opts.get('dbg'):
                    print('PASS', self.passes, 'header', h, 'drop', f)
                ch = True
        if ch:
            return True
        rounds = self.opts.setdefault('rounds', {})
        rounds[(self.fn.mangled, h)] = rounds.get((self.fn.mangled, h), 0) + 1
        if rounds[(self.fn.mangled, h)] > 8:
            return False
        # candidates
        gen = self.opts.setdefault('gen', {}).setdefault((self.fn.mangled, h), set())
        cands = []
        scal = [(t, e) for t, e in esub.items()]
        for t, e in scal:
            if tbits(t) < 8:
                continue
            cands.append(('ule', e, t))
            cands.append(('ule', t, e))
            for k, (p, s) in enumerate(back):
                nv = backsub[k].get(t)
                for f in s.node.facts():
                    if f[0] in ('sle', 'slt'):
                        for x in (f[1], f[2]):
                            if x[0] == 'op' and x[2] == 'sub' and (strip_z(x[3]) == t or strip_z(x[4]) == t):
                                cands.append(('ule', x[4], x[3]))
                    if f[0] in ('ule', 'ult', 'ne', 'eq'):
                        if nv is not None and contains(f, nv):
                            cands.append(subst(f, {nv: t}))
                        if strip_z(f[1]) == t or strip_z(f[2]) == t:
                            a, b2 = f[1], f[2]
                            if f[0] == 'ne':
                                cands.append(('ule', a, b2))
                                cands.append(('ule', b2, a))
                            else:
                                cands.append(('ule', a, b2))
                            if f[0] != 'eq':
                                cands.append(f)
                # linear rewriting:  nv = t + c
                c = self.ctx(s.node)
                if nv is not None and nv[0] != 'p':
                    ln = self.lz(c, nv)
                    dlt = lin.add(ln, {t: 1}, 1, -1)
                    if all(x == 1 for x in dlt):
                        k0 = dlt.get(1, 0)
                        for fi in c.index.get(t, ())[-30:]:
                            g = c.facts[fi]
                            co = g.get(t, 0)
                            # g(t_old) <= 0, t_old = t - k0
                            g2 = lin.add(g, lin.const(-co * k0))
                            cands.append(('lin', tuple(sorted(g2.items(), key=repr))))
        # relations between two induction variables with the same stride
        if len(scal) > 1 and len(scal) <= 8:
            for i1 in range(len(scal)):
                for i2 in range(i1 + 1, len(scal)):
                    t1, e1 = scal[i1]
                    t2, e2 = scal[i2]
                    if tbits(t1) < 16 or tbits(t2) < 16:
                        continue
                    for k, (p, s) in enumerate(back[:1]):
                        c = self.ctx(s.node)
                        n1, n2 = backsub[k].get(t1), backsub[k].get(t2)
                        ce = self.ctx(self.entry_node(hst, h))
                        if e1[0] != 'p' and e2[0] != 'p':
                            g = lin.add(lin.add({t1: 1}, {t2: 1}, 1, -1), lin.add(self.lz(ce, e1), self.lz(ce, e2), 1, -1), 1, -1)
                            cands.append(('lin', tuple(sorted(g.items(), key=repr))))
                            cands.append(('lin', tuple(sorted(lin.scale(g, -1).items(), key=repr))))
                        if n1 is None or n2 is None or n1[0] == 'p' or n2[0] == 'p':
                            continue
                        d1 = lin.add(self.lz(c, n1), {t1: 1}, 1, -1)
                        d2 = lin.add(self.lz(c, n2), {t2: 1}, 1, -1)
                        if all(x == 1 for x in d1) and all(x == 1 for x in d2) and d1.get(1) and d2.get(1):
                            k1, k2 = d1[1], d2[1]
                            # k2*t1 - k1*t2 is invariant
                            ce = self.ctx(hst.node)
                            base = lin.add(lin.scale(self.lz(ce, e1), k2), self.lz(ce, e2), 1, -k1)
                            g = lin.add(lin.add({t1: k2}, {t2: -k1}), base, 1, -1)
                            cands.append(('lin', tuple(sorted(g.items(), key=repr))))
                            cands.append(('lin', tuple(sorted(lin.scale(g, -1).items(), key=repr))))
        new = []
        for f in cands:
            if f in gen or (h, f) in self.dead or f in cur or f in hst.node.fset():
                continue
            gen.add(f)
            if not any(contains(f, t) for t, _ in scal):
                continue
            if not self.scoped(f, h):
                continue
            if self.holds(hst.node, f):
                continue
            # entry
            if self.holds(self.entry_node(hst, h), subst(f, esub)):
                new.append(f)
        if new:
            if self.opts.get('dbg'):
                print('PASS', self.passes, 'header', h, 'new', new)
            cur.extend(new)
            return True
        return False

    def entry_node(self, hst, h):
        # facts of the header state without the invariants (those were assumed last)
        n = hst.node
        inv = set(self.inv.get(h, ()))
        while n.fact is not None and n.fact in inv:
            n = n.parent
        return n

    def scoped(self, f, h):
        """all loop-defined terms other than header phis of h must be absent"""
        body = self.cfg.loops[h]
        bad = [False]

        def walk(t):
            if not isinstance(t, tuple) or bad[0]:
                return
            if t and t[0] in ('phi', 'mphi') and len(t) > 2:
                if t[2] != h and t[2] in body:
                    bad[0] = True
                return
            if t and t[0] == 'sym' and len(t) > 3 and t[2] == 'ins':
                if t[3] in body:
                    bad[0] = True
                return
            for x in t:
                walk(x)
        walk(f)
        return not bad[0]

    def sub_add(self, t, v, m, back=False):
        if t[0] == 'p':
            x, start, g, key = self.ptrinfo.get(t, (None, NOFF, 1, None))
            if v[0] == 'p' and v[1] == t[1]:
                if x is None:
                    return
                st = self.opts['stride']
                d = off_sub(v[2], start)
                if g > 1:
                    if d[0] % g or d[0] < 0 or (back and d[1] != ((x, g),)) or (not back and d != NOFF):
                        st[key] = 1
                        self.restride = True
                        return
                    m[x] = self.offterm((d[0] // g, tuple((y, k // g) for y, k in d[1])))
                    return
                m[x] = self.offterm(v[2])
                d = off_sub(v[2], t[2])
                if back and not d[1] and d[0] > 1 and key not in st:
                    st[key] = d[0]
                    self.restride = True
            else:
                # base changed: fall back to an opaque pointer next time
                self.opts.setdefault('ptrphi', {}).setdefault(self.fn.mangled, {})
                k = x
                if k is not None:
                    kk = k[3] if len(k) == 5 else (k[3], k[4])
                    if kk not in self.opts['ptrphi'][self.fn.mangled]:
                        self.opts['ptrphi'][self.fn.mangled][kk] = 1
        else:
            m[t] = v

    def init_state(self, st):
        h = self.models.get('init')
        if h:
            h(self, st)

    # ------------------------------------------------------------------ transfer
    def block(self, b, st):
        for i in self.fn.blocks[b]:
            if i.op == 'phi':
                continue
            self.cur = i
            r = self.step(i, st)
            if r == 'end':
                return

    def setv(self, i, t):
        self.env[i.id] = t

    def step(self, i, st):
        op = i.op
        if op == 'alloca':
            self.setv(i, mkptr(('alloca', self.fn.mangled, i.id)))
            base = ('alloca', self.fn.mangled, i.id)
            return
        if op == 'load':
            p = self.term(i.get('p'))
            base, off = self.asptr(p)
            if self.hooks:
                self.hooks.access(self, st, i, base, off, C(i.get('sz'), 64), 'load')
            if i.get('t') == 'ptr':
                t = self.read(st, base, off, 8)
                if t[0] != 'p':
                    t = mkptr(('obj', t)) if t[0] != 'c' else t
                self.setv(i, t)
                return
            t = self.read(st, base, off, i.get('sz'))
            w = tywidth(i.get('t'))
            if w == 1 and tbits(t) == 8:
                t = self.mkcast('trunc', 8, 1, t)
            g = self.const_global(base, off, i.get('sz'))
            if g is not None:
                t = g
            self.setv(i, t)
            return
        if op == 'store':
            p = self.term(i.get('p'))
            v = self.term(i.get('v'))
            base, off = self.asptr(p)
            if self.hooks:
                self.hooks.access(self, st, i, base, off, C(i.get('sz'), 64), 'store')
                self.hooks.stored(self, st, i, base, off, i.get('sz'), v)
            if v[0] == 'p' and v[2] == NOFF and v[1][0] == 'obj' and False:
                v = v[1][1]
            self.write(st, base, off, i.get('sz'), v, 'v', i)
            return
        if op == 'getelementptr':
            p = self.term(i.get('p'))
            base, off = self.asptr(p)
            off = off_add(off, i.get('off', 0))
            for v, s in i.get('vs', ()):
                off = off_add(off, 0, self.term(v), s)
            self.setv(i, mkptr(base, off))
            return
        if op in INTR:
            a, b = [self.term(x) for x in i.get('a')]
            bits = tywidth(i.get('t'))
            if a[0] == 'p' or b[0] == 'p':
                self.setv(i, ('sym', bits or 64, 'ins', i.bb, i.id))
                return
            if op in ('udiv', 'urem', 'sdiv', 'srem') and self.hooks:
                self.hooks.division(self, st, i, a, b)
            if op == 'sub' and a[0] == 'cast' and a[2] == 'ptrtoint' and b[0] == 'cast' and b[2] == 'ptrtoint' and a[4][0] == 'p' and b[4][0] == 'p' and a[4][1] == b[4][1]:
                o = off_add(a[4][2], -b[4][2][0])
                for t, k in b[4][2][1]:
                    o = off_add(o, 0, t, -k)
                neg = any(k < 0 for _, k in o[1])
                self.setv(i, self.offterm(o) if not neg else self.mkop('sub', 64, self.offterm(a[4][2]), self.offterm(b[4][2])))
                return
            self.setv(i, self.mkop(op, bits, a, b))
            return
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            a = self.term(i.get('a')[0])
            fb, tb = tywidth(i.get('ot')), tywidth(i.get('t'))
            if not fb or not tb:
                self.setv(i, ('sym', tb or 64, 'ins', i.bb, i.id))
            elif op in ('ptrtoint', 'inttoptr', 'bitcast'):
                self.setv(i, ('cast', tb, op, fb, a) if op != 'bitcast' else a)
            elif fb == tb:
                self.setv(i, a)
            else:
                self.setv(i, self.mkcast(op, fb, tb, a))
            return
        if op == 'icmp':
            a, b = [self.term(x) for x in i.get('a')]
            pr = i.get('pr')
            if a[0] == 'c' and b[0] == 'c':
                x, y = a[1], b[1]
                r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}.get(pr)
                if r is not None:
                    self.setv(i, C(1 if r else 0, 1))
                    return
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                g = 0
                for o in (a[2], b[2]):
                    g = gcd(g, abs(o[0]))
                    for _, k in o[1]:
                        g = gcd(g, abs(k))
                dv = (lambda o: (o[0] // g, tuple((x, k // g) for x, k in o[1]))) if g > 1 else (lambda o: o)
                a, b = self.offterm(dv(a[2])), self.offterm(dv(b[2]))
            self.setv(i, ('cmp', 1, pr, a, b))
            return
        if op == 'select':
            c, a, b = [self.term(x) for x in i.get('a')]
            if a == b:
                self.setv(i, a)
                return
            if c[0] == 'c':
                self.setv(i, a if c[1] else b)
                return
            if a[0] == 'p' or b[0] == 'p':
                if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                    t = ('sel', 64, c, self.offterm(a[2]), self.offterm(b[2]))
                    self.sel_facts(st, t)
                    self.setv(i, mkptr(a[1], off_add(NOFF, 0, t, 1)))
                else:
                    self.setv(i, mkptr(('obj', ('sel', 64, c, a, b))))
                return
            t = ('sel', tywidth(i.get('t')) or 64, c, a, b)
            if tbits(t) >= 8:
                self.sel_facts(st, t)
            self.setv(i, t)
            return
        if op in ('call', 'invoke'):
            return self.call(i, st)
        if op == 'br':
            if i.get('v') is None:
                self.flow(i.bb, i.get('s')[0], st)
                return 'end'
            c = self.term(i.get('v'))
            s0, s1 = i.get('s')
            if c[0] == 'c':
                self.flow(i.bb, s0 if c[1] else s1, st)
                return 'end'
            if s0 == s1:
                self.flow(i.bb, s0, st)
                return 'end'
            for s, v in ((s0, True), (s1, False)):
                n = st.copy()
                self.add_facts(n, self.cond_facts(c, v))
                if self.infeasible(n):
                    continue
                self.flow(i.bb, s, n)
            return 'end'
        if op == 'switch':
            v = self.term(i.get('v'))
            bysucc = {}
            for cv, b in i.get('cs'):
                bysucc.setdefault(b, []).append(int(cv))
            allv = [int(cv) for cv, _ in i.get('cs')]
            for b, vs in bysucc.items():
                if b == i.get('df'):
                    continue
                n = st.copy()
                if len(vs) == 1:
                    n.assume(('eq', v, C(vs[0], tbits(v))))
                else:
                    n.assume(('ule', v, C(max(vs), tbits(v))))
                    n.assume(('ule', C(min(vs), tbits(v)), v))
                self.flow(i.bb, b, n)
            n = st.copy()
            if i.get('df') not in bysucc:
                for x in allv:
                    n.assume(('ne', v, C(x, tbits(v))))
            self.flow(i.bb, i.get('df'), n)
            return 'end'
        if op in ('ret', 'resume', 'unreachable'):
            if self.hooks and op == 'ret':
                self.hooks.ret(self, st, i)
            return 'end'
        if op == 'extractvalue' and i.get('t') != 'ptr':
            a = self.term(i.get('a')[0])
            if a[0] == 'sym':
                self.setv(i, ('op', tywidth(i.get('t')) or 64, 'xv', a, C(i.get('ix')[0], 32)))
                return
        if i.id is not None:
            if i.get('t') == 'ptr':
                self.setv(i, mkptr(('obj', ('sym', 64, 'ins', i.bb, i.id))))
            else:
                self.setv(i, ('sym', tywidth(i.get('t')) or 64, 'ins', i.bb, i.id))

    def sel_facts(self, st, t):
        c, a, b = t[2], t[3], t[4]
        # min/max idioms and common bounds
        na = st.copy()
        self.add_facts(na, self.cond_facts(c, True))
        nb = st.copy()
        self.add_facts(nb, self.cond_facts(c, False))
        for f in (('ule', t, a), ('ule', t, b), ('ule', a, t), ('ule', b, t)):
            if self.holds(na.node, subst(f, {t: a})) and self.holds(nb.node, subst(f, {t: b})):
                st.assume(f)

    def const_global(self, base, off, sz):
        if base[0] == 'glob' and not off[1]:
            g = self.prog.globals.get(base[1])
            if g and g.get('const'):
                if 'v' in g and off[0] == 0:
                    return C(int(g['v']), sz * 8)
                if 'a' in g and g['a'] and g['sz'] // len(g['a']) == sz and off[0] % sz == 0 and off[0] // sz < len(g['a']):
                    return C(int(g['a'][off[0] // sz]), sz * 8)
        return None

    def impossible(self, st):
        if self.infeasible(st):
            return True
        fs = st.node.fset()
        for f in fs:
            n = negate(f)
            if n is not None and n in fs:
                return True
        c = self.ctx(st.node)
        if c.inconsistent():
            return True
        for f in fs:
            if f[0] == 'ne' and self.prove(st, 'eq', f[1], f[2]):
                return True
        return False

    def flow(self, b, s, st):
        if self.opts.get('prune') and self.impossible(st):
            return
        k = (b, s)
        if k in self.out:
            o = self.out[k]
            n = st
            common = [f for f in o.node.facts() if f in n.node.fset()]
            node = ROOT
            for f in common:
                node = Node(node, f)
            o.node = node
        else:
            self.out[k] = st

    # ------------------------------------------------------------------ calls
    def call(self, i, st):
        name = i.callee
        args = [self.term(a) for a in i.get('a')]
        fn = self.prog.fns.get(name) if name else None
        res = None
        short = fn.name if fn else None
        if self.hooks:
            self.hooks.call(self, st, i, fn, args)
        ust = st.copy() if i.op == 'invoke' else None
        handled = False
        m = self.models.get(short) if short else None
        if m is not None:
            r = m(self, st, i, fn, args)
            if r is not NotImplemented:
                handled = True
                res = r
        if not handled:
            res = self.default_call(i, st, fn, args)
        if i.id is not None:
            if res is None:
                res = ('sym', tywidth(i.get('t')) or 64, 'ins', i.bb, i.id)
            if i.get('t') == 'ptr' and res[0] != 'p' and res[0] != 'c':
                res = mkptr(('obj', res))
            self.env[i.id] = res
        if self.hooks:
            self.hooks.after_call(self, st, i, fn, args, res)
        if i.op == 'invoke':
            # exceptional state: effects may have happened
            self.default_effects(i, ust, fn, args)
            if fn and fn.raw.get('nr'):
                self.flow(i.bb, i.get('ud'), ust)
                return 'end'
            self.flow(i.bb, i.get('nd'), st)
            self.flow(i.bb, i.get('ud'), ust)
            return 'end'
        if fn and fn.raw.get('nr'):
            return 'end'
        return None

    def arg_modes(self, i, fn, args):
        """per IR argument: 'const' | 'mut' | 'val' ; plus index of this / sret"""
        modes = ['mut'] * len(args)
        if fn is None:
            return modes
        k = 0
        if i.get('sret') is not None:
            modes[0] = 'sret'
            k = 1
        ps = fn.params
        rest = len(args) - k - len(ps)
        if rest == 1:
            modes[k] = 'const' if fn.const else 'mut'
            k += 1
        elif rest != 0:
            return modes
        for p in ps:
            if p.endswith('&') or p.endswith('*'):
                core = p[:-1].rstrip()
                modes[k] = 'const' if core.endswith('const') else 'mut'
            else:
                modes[k] = 'val'
            k += 1
        return modes

    def default_effects(self, i, st, fn, args):
        modes = self.arg_modes(i, fn, args)
        tok = (i.bb, i.idx)
        for a, m in zip(args, modes):
            if m in ('mut', 'sret') and a[0] == 'p':
                wm = self.opts.get('nomod')
                if wm and fn is not None and wm(fn, a):
                    continue
                if a[1][0] in ('str', 'sec', 'glob'):
                    continue
                self.havoc(st, a[1], tok)
        return modes

    def versions(self, st, args, modes):
        r = []
        for a, m in zip(args, modes):
            if a[0] == 'p':
                v = st.mem.get(a[1], {}).get(('s', a[2][0])) if not a[2][1] else None
                r.append((self.epoch_of(st, a[1]), v[1] if v else None))
        return tuple(r)

    def default_call(self, i, st, fn, args):
        modes = self.arg_modes(i, fn, args)
        pure = fn is not None and all(m in ('const', 'val') for m, a in zip(modes, args) if a[0] == 'p')
        if fn is not None and fn.name.startswith('llvm.'):
            return self.intrinsic(i, st, fn, args)
        if pure and not fn.raw.get('nr') and fn.name not in ('operator new', 'operator delete', '__cxa_allocate_exception'):
            w = tywidth(i.get('t') or '') or 64
            return ('call', w, fn.name) + tuple(args) + (self.versions(st, args, modes),)
        if fn is None or fn.name not in ('__cxa_begin_catch', '__cxa_end_catch', '__cxa_free_exception', '__cxa_allocate_exception', '__cxa_throw', 'operator delete'):
            self.default_effects(i, st, fn, args)
        return None

    def intrinsic(self, i, st, fn, args):
        n = fn.name
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.mem_copy(i, st, args[0], args[1], args[2])
            return None
        if n.startswith('llvm.memset'):
            self.mem_set(i, st, args[0], args[1], args[2])
            return None
        if n.startswith('llvm.umin') or n.startswith('llvm.umax'):
            op = 'ult' if 'umin' in n else 'ugt'
            w = tbits(args[0])
            t = ('sel', w, ('cmp', 1, op, args[0], args[1]), args[0], args[1])
            self.sel_facts(st, t)
            return t
        return None

    def mem_copy(self, i, st, d, s, n):
        db, do = self.asptr(d)
        sb, so = self.asptr(s)
        if self.hooks:
            self.hooks.access(self, st, i, sb, so, n, 'copy-src')
            self.hooks.access(self, st, i, db, do, n, 'copy-dst')
            self.hooks.copied(self, st, i, db, do, sb, so, n)
        if n[0] == 'c' and not do[1]:
            sz = n[1]
            cells = st.mem.setdefault(db, {})
            self.clobber(cells, do[0], sz, ('v', 'cp'))
            st.mem[db] = cells
            if not so[1]:
                # move known cells; unknown parts become loads of the source object
                src = dict(st.mem.get(sb, {}))
                known = {}
                for (k2, o2), (s2, t2) in src.items():
                    if k2 == 'v' and o2 >= so[0] and o2 + s2 <= so[0] + sz:
                        known[o2 - so[0]] = (s2, t2)
                for o, (s2, t2) in known.items():
                    cells[('v', do[0] + o)] = (s2, t2)
                cells[('cp', do[0])] = (sz, ('cpy', sb, so, sz, self.epoch_of(st, sb)))
            else:
                cells[('cp', do[0])] = (sz, ('cpy', sb, so, sz, self.epoch_of(st, sb)))
        else:
            if db[0] not in ('str', 'sec'):
                self.havoc(st, db, (i.bb, i.idx))

    def mem_set(self, i, st, d, v, n):
        db, do = self.asptr(d)
        if self.hooks:
            self.hooks.access(self, st, i, db, do, n, 'set-dst')
        if n[0] == 'c' and not do[1] and v == C(0, 8):
            cells = st.mem.setdefault(db, {})
            self.clobber(cells, do[0], n[1], ('v', 'cp'))
            cells[('v', do[0])] = (n[1], ('zero',))
        elif db[0] not in ('str', 'sec'):
            self.havoc(st, db, (i.bb, i.idx))


def negate(f):
    k = f[0]
    if k == 'eq':
        return ('ne',) + f[1:]
    if k == 'ne':
        return ('eq',) + f[1:]
    if k == 'ule':
        return ('ult', f[2], f[1])
    if k == 'ult':
        return ('ule', f[2], f[1])
    if k == 'true':
        return ('false', f[1])
    if k == 'false':
        return ('true', f[1])
    return None


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and contains(y, x):
                return True
    return False


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    ch = False
    r = []
    for x in t:
        if isinstance(x, tuple):
            y = subst(x, m)
            if y is not x:
                ch = True
            r.append(y)
        else:
            r.append(x)
    return tuple(r) if ch else t


def strip_z(t):
    while t[0] == 'cast' and t[2] == 'zext':
        t = t[4]
    return t
