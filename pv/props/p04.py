"""P04: what the rebuilders write fits the room they make for it: sums over the same lists, computed when the room is measured and when it is filled, are equal."""
import itertools, multiprocessing, re
from .. import ir, heap
from ..build import Broken
from ..wstream import *
from .p12 import where as fnloc
from .p16 import parts
from .p11 import View
from . import p29
from .p29 import atom, call, carried, ATOM

SIGN = 1 << 31
PURE = ('is_', 'has_', 'get_', 'includes_', 'empty', 'rebuild', 'build_', 'save_', 'fill_', 'rewrite', 'zero_')


class Sizes(object):
    """linear terms over the lists given, compared on one path that returns"""

    def __init__(self, W):
        self.W = W
        self.memo = {}
        self.even = {}
        self.why = None
        self.fixed = {}
        self.slots = {}
        self.collected = lambda c: None

    def parents(self, h):
        return set(g for g in self.W.loops if h in self.W.loops[g])

    def list_of(self, s, h):
        """the list loop h runs over, canonical; None when it does not run over all of one"""
        k = ('list', id(s), h)
        if k not in self.memo:
            W, r = self.W, None
            W.ctx = s
            for kk, cur, ent in s.visit.get(('in', h), ()):
                if kk[0] == 'm' and ent[0] in ('call', 'ret') and last(ent[1]) in ('begin', 'cbegin') and len(ent[2]) == 1:
                    c = ptr(ent[2][0])
                    k2 = ('taken', h, c)
                    if k2 not in self.memo:
                        self.memo[k2] = not W.taken(h, lambda W, x: x == c)
                        W.ctx = s
                    if self.memo[k2]:
                        r = c
                        break
            self.memo[k] = r
        return self.memo[k]

    # -- terms of a state
    def expand(self, t, s, opened):
        """loops that are over are replaced by sums; opened: loops still running"""
        for rnd in range(40):
            t = self.after(t, s)
            for a, c in sorted(t[1], key=repr):
                if not isinstance(a, tuple) or a[:1] not in (('rec',), ('iter',)) or a[1] in opened or a[1] not in self.W.loops:
                    continue
                if ('in', a[1]) not in s.visit:
                    continue
                r = self.over(a, s)
                if r is not None:
                    t = plus(('L', t[1] - frozenset([(a, c)]), t[2]), ('L', frozenset((x, y * c & M32) for x, y in r[1]), r[2] * c & M32))
                    break
            else:
                return t
        return t

    def whole(self, t, s):
        t = self.copies(self.expand(t, s, set()), s)
        x = self.split(t)
        return t if x == t else self.copies(self.expand(x, s, set()), s)

    def copies(self, t, s):
        """the lengths of local copies of lists as those of the lists"""
        r = num(t[2])
        for a, c in t[1]:
            if a[:1] == ('n',) and a[1][:1] == ('p',) and a[1][1][:1] == ('loc',):
                k = ('copy', a[1])
                if k not in self.memo:
                    qs = set(self.W.P.content(x, a[1])[:3] for L in self.W.P.backs.values() for x in L)
                    qs = set(q for q in qs if q[0] != 'dead' and q != ('init', a[1][1], a[1][2]))
                    self.memo[k] = [q for q in qs if q[0] == 'init'] if len(qs) == 1 else []
                for q in self.memo[k]:
                    a = ('n', ('p',) + tuple(q[1:3]))
            r = plus(r, ('L', frozenset([(a, c)]), 0))
        return r

    def after(self, t, s):
        """what calls have added to a value they are given to change"""
        m = self.grown(s) if self.slots else {}
        for rnd in range(20):
            for a, c in t[1]:
                if a in m:
                    t = plus(('L', t[1] - frozenset([(a, c)]), t[2]), ('L', frozenset((x, y * c & M32) for x, y in m[a][1]), m[a][2] * c & M32))
                    break
            else:
                break
        return t

    def grown(self, s):
        """values read after calls that change them: what was there plus what the call adds"""
        k = ('grown', id(s))
        if k not in self.memo:
            W, m = self.W, {}
            after = dict(s.visit.get('after', ()))
            for b, j in s.visit.get('log', ()):
                i, f, a, st = W.P.seen[j]
                if f.dem not in self.slots or j not in after:
                    continue
                hit = dict(after[j])
                root, ks = self.slots[f.dem]
                for n in ks:
                    if a[n][0] == 'p' and a[n][1] in hit:
                        t = ('ld', a[n][1], a[n][2], 4, hit[a[n][1]])
                        m[atom(lin(t, 32))] = plus(lin(W.P.load(st, a[n], 4, None), 32), ATOM(('grow', f.dem, n, ('ref', canon(a[root])))))
            self.memo[k] = m
        return self.memo[k]

    def over(self, a, s):
        h = a[1]
        if a in self.fixed:
            e, d = self.fixed[a]
            return plus(e if e is not None else self.entry(a, s), d)
        if a[0] == 'iter':
            c = self.list_of(s, h)
            return length_plus(c, 0) if c is not None else None
        for k, cur, ent in s.visit.get(('in', h), ()):
            if cur[0] in ('op', 'any', 'cast', 'ld') and heap.bits(cur) in (16, 32, 64) and atom(lin(cur, 32)) == a:
                return plus(lin(ent, 32), ATOM(('sum', h, a, self.key(self.list_of(s, h)))))
        return None

    def key(self, c):
        return c

    def step(self, a, s):
        """what an iteration that ends in s adds to a carried value"""
        h = a[1]
        for k, cur, nxt in s.visit.get(('nx', h), ()):
            if cur[0] in ('op', 'any', 'cast', 'ld') and heap.bits(cur) in (16, 32, 64) and atom(lin(cur, 32)) == a:
                d = plus(self.after(lin(nxt, 32), s), ATOM(a), -1)
                return self.expand(d, s, self.parents(h) | set([h]))
        return None

    def norm(self, t, s, m):
        """elements of running loops by the depth of the loop"""
        if isinstance(t, frozenset):
            return frozenset(self.norm(x, s, m) for x in t)
        if not isinstance(t, tuple):
            return t
        if t[:1] == ('ref',) and len(t) == 2 and isinstance(t[1], tuple) and t[1][:1] == ('call',):
            k = ('el', t, id(s))
            if k not in self.memo:
                self.W.ctx = s
                self.memo[k] = self.W.container((t, 0))[1]
            if self.memo[k] in m:
                return ('ref', ('elem', m[self.memo[k]]))
        if t[:1] == ('L',):
            r = num(t[2])
            for x, c in t[1]:
                y = self.norm(x, s, m)
                r = plus(r, ('L', frozenset([(y, c)]), 0))
            return r
        return tuple(self.norm(x, s, m) for x in t)

    def literals(self, s, m):
        """truths of a path that stay: [(term, truth)]"""
        k = ('lits', id(s), tuple(sorted(m.items())))
        if k in self.memo:
            return self.memo[k]
        W = self.W
        W.ctx = s
        r = set()
        for c in s.conds:
            t, pol = W.leaf(c)
            if t[0] in ('call', 'ret'):
                if not last(t[1]).startswith(PURE):
                    continue
                x = canon(t)
            elif t[0] == 'cmp':
                a, b = arg(t[2]), arg(t[3])
                op = t[1]
                if op in ('ne', 'uge', 'ule', 'sge', 'sle'):
                    op = {'ne': 'eq', 'uge': 'ult', 'ule': 'ugt', 'sge': 'slt', 'sle': 'sgt'}[op]
                    pol = not pol
                if op in ('ugt', 'sgt'):
                    op, a, b = {'ugt': 'ult', 'sgt': 'slt'}[op], b, a
                x = ('cmp', op, a, b)
            else:
                x = canon(t)
            x = self.lows(x, s)
            x = self.norm(x, s, m)
            z = repr(x)
            if "'rec'" in z or "'iter'" in z or 'get_raw_data' in z or "'loc'" in z:
                continue
            r.add((x, pol))
        self.memo[k] = r
        return r

    def opened(self, s):
        """loops that run when a path ends"""
        for h, L in self.W.P.backs.items():
            if ('open', id(s)) not in self.memo and any(x is s for x in L):
                self.memo[('open', id(s))] = self.parents(h) | set([h])
        return self.memo.setdefault(('open', id(s)), set())

    def lows(self, x, s):
        """remainders of carried positions that are known to be multiples"""
        if isinstance(x, tuple):
            if x[:1] == ('low',) and x[2][0] == 'L':
                y = self.expand(x[2], s, self.opened(s))
                for rnd in range(8):
                    y = self.modulo(y, x[1], s)
                    for a, c in y[1]:
                        e = self.entry(a, s)
                        if e is not None and self.multiple(a, x[1]):
                            y = plus(('L', y[1] - frozenset([(a, c)]), y[2]), ('L', frozenset((b, d * c & M32) for b, d in e[1]), e[2] * c & M32))
                            break
                    else:
                        break
                return ('low', x[1], y)
            return tuple(self.lows(y, s) if isinstance(y, tuple) else frozenset((self.lows(a, s), c) for a, c in y) if isinstance(y, frozenset) else y for y in x)
        return x

    def modulo(self, t, j, s):
        """the low bits of a term; a remainder has the low bits of what it is the remainder of"""
        r = num(t[2])
        for a, c in t[1]:
            y = a[2] if isinstance(a, tuple) and a[:1] == ('low',) and a[1] >= j and a[2][0] == 'L' else ATOM(a)
            r = plus(r, ('L', frozenset((x, z * c & M32) for x, z in y[1]), y[2] * c & M32))
        t = narrow(r, j)
        for z in self.zeros(s, j):
            x = narrow(plus(t, z, -1), j)
            if len(x[1]) + len(z[1]) == len(t[1]):
                t = x
        return t

    def zeros(self, s, j):
        """terms a path has found to be multiples"""
        k = ('zeros', id(s), j)
        if k not in self.memo:
            self.W.ctx = s
            r = []
            for c in s.conds:
                x, pol = self.W.leaf(c)
                if pol or x[0] not in ('op', 'cast', 'any'):
                    continue
                x = canon(x)
                a = atom(x) if x[0] == 'L' else None
                if a is not None and a[0] == 'low' and a[1] >= j and a[2][1] and "'rec'" not in repr(a) and "'loc'" not in repr(a):
                    r.append(narrow(a[2], j))
            self.memo[k] = r
        return self.memo[k]

    def entry(self, a, s):
        """what a carried value is when its loop begins"""
        if isinstance(a, tuple) and a[:1] == ('rec',):
            for key, cur, ent in s.visit.get(('in', a[1]), ()):
                if cur[0] in ('op', 'any', 'cast', 'ld') and heap.bits(cur) == 32 and atom(lin(cur, 32)) == a:
                    return lin(ent, 32)
        return None

    def multiple(self, a, j):
        """what a carried value grows by is a multiple of 2^j in every iteration"""
        k = (a, j)
        if k not in self.even:
            self.even[k] = True        # by induction
            ok = True
            for s in self.W.P.backs.get(a[1], ()):
                d = self.step(a, s)
                ok = ok and d is not None and (self.ismult(d, j, s) or self.contra(self.literals(s, {a[1]: 0})))
            self.even[k] = ok
            if not ok:
                for kk in [x for x in self.memo if x[0] in ('lits', 'zeros')]:
                    del self.memo[kk]
        return self.even[k]

    def ismult(self, t, j, s):
        t = self.modulo(t, j, s)
        if not t[1] and not t[2]:
            return True
        # x rounded up: x - low(x) + 2^j, or x where low(x) is 0; 2 * n + 2 where 2 * n is no multiple of 4
        self.W.ctx = s
        base = ('L', frozenset((a, c) for a, c in t[1] if a[:1] != ('low',)), 0)
        lo = [(a, c) for a, c in t[1] if a[:1] == ('low',)]
        if len(lo) == 1 and lo[0][0][1] == j and lo[0][1] == (1 << j) - 1 and plus(narrow(lo[0][0][2], j), narrow(plus(base, t[2]), j), -1, j) == ('L', frozenset(), 0):
            return True
        for c in s.conds:
            x, pol = self.W.leaf(c)
            if x[0] not in ('op', 'cast', 'any'):
                continue
            a = atom(self.lows(canon(x), s)) if canon(x)[0] == 'L' else None
            if a is None or a[0] != 'low' or a[1] != j:
                continue
            r = plus(t, a[2], -1, j)
            if not r[1] and (not pol and r[2] == 0 or pol and j == 2 and r[2] == 2 and all(k % 2 == 0 for y, k in a[2][1]) and a[2][2] % 2 == 0):
                return True
        return False

    def contra(self, lits):
        return any((x, not p) in lits for x, p in lits)

    # -- comparison
    def nonneg(self, D, lits, depth=0, zero=False):
        """D is at least 0 (zero: exactly 0) whatever the lists hold; atoms ('sum', loop, value, list)"""
        groups, rest = {}, {}
        D = self.split(D)
        n = D[2] - (1 << 32) if D[2] >> 31 else D[2]
        for a, c in D[1]:
            c = c - (1 << 32) if c >> 31 else c
            if isinstance(a, tuple) and a[:1] == ('sum',):
                groups.setdefault(self.listkey(a), []).append((a, c))
            elif isinstance(a, tuple) and a[:1] == ('n',) and self.collected(a[1]):
                L, lit, key = self.collected(a[1])
                groups.setdefault(L, []).append((('ones', a[1]), c))
            else:
                rest[a] = rest.get(a, 0) + c
        for a in list(rest):
            # a remainder is less than what it is the remainder of
            if isinstance(a, tuple) and a[:1] == ('rem',) and rest[a] < 0:
                m = atom(a[2])
                if m in rest and rest[m] >= -rest[a]:
                    rest[m] += rest[a]
                    n -= rest[a]
                    rest[a] = 0
            if isinstance(a, tuple) and a[:1] == ('low',) and rest[a] < 0:
                n += rest[a] * ((1 << a[1]) - 1)
                rest[a] = 0 if not zero else 1
        # lengths of lists against sums over them
        for k in list(groups):
            a = ('n', k)
            if k is not None and a in rest:
                groups[k].append((('one',), rest.pop(a)))
        neg = [a for a, c in rest.items() if c < 0 or zero and c]
        if neg or n < 0 or zero and n:
            self.why = self.why or 'by ' + say(('L', frozenset((a, c & M32) for a, c in rest.items() if c), n & M32))
            return False
        for k, L in groups.items():
            if k is None and any(c < 0 for a, c in L) or zero and k is None:
                self.why = self.why or 'by a sum that is not over a whole list'
                return False
            if not self.group(k, L, lits, depth, zero):
                return False
        return True

    def split(self, D):
        """x without its remainder as the difference of both"""
        r = num(D[2])
        for a, c in D[1]:
            y = ATOM(a)
            if isinstance(a, tuple) and a[:1] == ('op',) and a[1] == 'and' and a[4][0] == 'L':
                m = atom(a[4])
                if m is not None and m[0] == 'op' and m[1] == 'xor' and num(M32) in m[3:]:
                    k = m[3] if m[4] == num(M32) else m[4]
                    y = plus(a[3], ATOM(('rem', a[3], plus(k, 1))), -1)
            elif isinstance(a, tuple) and a[:2] == ('op', 'urem'):
                y = ATOM(('rem', a[3], a[4]))
            r = plus(r, ('L', frozenset((x, z * c & M32) for x, z in y[1]), y[2] * c & M32))
        return r

    def listkey(self, a):
        k = a[3]
        m = self.collected(k)
        return m[0] if m else k

    def group(self, k, L, lits, depth, zero):
        """the sum, over the elements of one list, of what the values in question grow by"""
        loops = sorted(set(a[1] for a, c in L if a[0] == 'sum'))
        ones = [(a, c) for a, c in L if a[0] == 'ones']
        opts = []
        for h in loops:
            mine = tuple((a, c) for a, c in L if a[0] == 'sum' and a[1] == h)
            o = self.options(h, mine, depth)
            if o is None:
                self.why = self.why or 'by a value that could not be followed'
                return False
            opts.append(o)
        for a, c in ones:
            col = self.collected(a[1])
            opts.append([(frozenset([(col[1](depth), True)]), num(c & M32)), (frozenset([(col[1](depth), False)]), num(0))])
        D = num(sum(c for a, c in L if a[0] == 'one') & M32)
        alts = set([(frozenset(lits), D)])
        for o in opts:
            alts = set((l | nl, plus(d, x)) for l, d in alts for nl, x in o if not self.contra(l | nl))
        old = self.outer
        self.outer = dict(self.outer)
        for h in loops:
            self.outer[h] = depth
        r = all(self.nonneg(d, l, depth + 1, zero) for l, d in alts)
        self.outer = old
        return r

    def options(self, h, mine, depth):
        """what the values of one loop grow by, in every way an iteration can go"""
        k = ('options', h, mine, depth, tuple(sorted(self.outer.items())))
        if k in self.memo:
            return self.memo[k]
        r = set()
        m = {h: depth}
        m.update(self.outer)
        old = self.outer
        self.outer = m
        for s in self.W.P.backs.get(h, ()):
            nl = self.literals(s, m)
            if self.contra(nl):
                continue
            x = num(0)
            for a, c in mine:
                d = self.step(a[2], s)
                if d is None:
                    r = None
                    break
                x = plus(x, ('L', frozenset((y, z * c & M32) for y, z in d[1]), d[2] * c & M32))
            if r is None:
                break
            x = self.norm(x, s, m)
            c = self.collected(self.list_of(s, h))
            if c:
                r.add((frozenset(nl | set([(c[1](depth), True)])), self.rename(x, depth, c)))
                r.add((frozenset(nl | set([(c[1](depth), False)])), num(0)))
            else:
                r.add((frozenset(nl), x))
        self.outer = old
        self.memo[k] = r
        return r

    def rename(self, x, depth, col):
        """the key of an element of a collection of names as the name of the element it was made from"""
        def f(t):
            if isinstance(t, frozenset):
                return frozenset((f(a), c) for a, c in t)
            if not isinstance(t, tuple):
                return t
            if t == ('p', ('ref', ('elem', depth)), 0):
                return col[2](depth)
            return tuple(f(y) for y in t)
        return f(x)

    outer = {}


def extents(W, s):
    """{sequence of the section: (start, end)} on a path that returns"""
    r = {}
    for st in W.streams:
        if st.space != 'raw':
            continue
        e = W.extent(s, st.name)
        if e is None:
            for (n, h), cs in W.choices.items():
                if n != st.name or len([c for c in cs if c is not None]) != 1 or any(W.inner_of(h, g) for g in W.loops):
                    continue
                for kk, cur, ent in s.visit.get(('in', h), ()):
                    if kk in cs:
                        e = lin(ent, 32), lin(cur, 32)
        if e is not None:
            r[st.name] = e
    return r


def raw(W, t):
    """the number of bytes the section holds"""
    return t[0] == 'L' and atom(t) is not None and atom(t)[0] == 'n' and isinstance(atom(t)[1], tuple) and repr(W.section) in repr(atom(t)[1]) and 'get_raw_data' in repr(atom(t)[1]) and len(repr(atom(t)[1])) < 300


def bounds(W, conds):
    """[(small, large)]: the first is at most the second"""
    r = []
    for c in conds:
        t, pol = W.leaf(c)
        if t[0] != 'cmp' or t[1] not in ('ult', 'ule', 'ugt', 'uge'):
            continue
        a, b, op = lin(t[2], 32), lin(t[3], 32), t[1]
        if not pol:
            op = {'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult'}[op]
        r.append((a, b) if op in ('ult', 'ule') else (b, a))
    return r


def rooms(W, s, loops):
    """lengths the section has at least when the writing begins, and the numbers the length is compared with before"""
    r = []
    for a, b in bounds(W, s.conds):
        if raw(W, b):
            r.append(a)
    first = min([s.visit[('at', h)][1] for h in loops if ('at', h) in s.visit] or [1 << 30])
    for q, (b, j) in enumerate(s.visit.get('log', ())):
        i, f, a, st = W.P.seen[j]
        if last(f.name) == 'resize' and raw(W, length_plus(ptr(a[0]), 0)) and q < first and not st.visit.get('wlog'):
            r.append(lin(a[1], 32))
    return r


def resizes(W):
    """the section never gets shorter than it was"""
    bad = set()
    n = 0
    for s in [s for v, s in W.P.rets] + [s for L in W.P.backs.values() for s in L]:
        W.ctx = s
        S = W.sizes
        for b, j in s.visit.get('log', ()):
            i, f, a, st = W.P.seen[j]
            if last(f.name) != 'resize' or not raw(W, length_plus(ptr(a[0]), 0)):
                continue
            n += 1
            t = lin(a[1], 32)
            # the length itself, or something known to be at least a length
            if raw(W, t) or any(raw(W, x) and S.quick(plus(t, y, -1)) for x, y in bounds(W, st.conds)):
                continue
            bad.add(('the section is cut to %s bytes, whatever it held before' % say(t), i.loc))
    return n, sorted(bad)


def lastsection(W, s):
    """the section is known to be the last one"""
    for c in s.conds:
        t, pol = W.leaf(c)
        if t[0] == 'cmp' and t[1] in ('eq', 'ne') and pol == (t[1] == 'eq') and W.section in (canon(t[2]), canon(t[3])):
            return True
    return False


def avail(W, s):
    """numbers the aligned size of the section is known to be at least"""
    r = []
    for a, b in bounds(W, s.conds):
        for t in W.getter('section', 'get_size_of_raw_data'):
            if repr(subst(canon(t), W.section[1:])) in repr(b):
                r.append(a)
        if 'get_size_of_raw_data' in repr(b):
            r.append(a)
    return r


def analyse(job):
    pat = p29.SPECS[job[0]][0]
    W = p29.build(job)
    S = W.sizes = Sizes(W)
    return job[2], W.P.complete, check(W, pat)


def check(W, pat):
    S = W.sizes
    loops = set()
    for h in W.loops:
        if any(b in W.loops[h] for s in [s for v, s in W.P.rets] + [s for L in W.P.backs.values() for s in L] for b, k in s.visit.get('wlog', ())):
            loops.add(h)
    res = {}

    def note(key, ok, msg, loc=None):
        o = res.setdefault(key, [0, None])
        o[0] += 1
        if not ok and o[1] is None:
            o[1] = (loc, msg)
    done = set()
    special = SPECIAL.get(pat)
    for v, s in W.P.rets:
        W.ctx = s
        ext = extents(W, s)
        if special:
            special(W, s, ext)
        W.ctx = s
        X = [S.whole(x, s) for x in rooms(W, s, loops)]
        ext = dict((n, tuple(S.whole(x, s) for x in e)) for n, e in ext.items())
        lits = S.literals(s, {})
        d = parts(v)
        at = None
        if d:
            a = call(lin(d[0], 32), 'rva_from_section_offset')
            at = S.whole(a[-1], s) if a is not None else None
            size = S.whole(lin(d[1], 32), s)
        W.ctx = s
        free = lastsection(W, s)
        av = [S.whole(x, s) for x in avail(W, s)]
        k = (tuple(sorted(ext.items(), key=repr)), frozenset(X), frozenset(lits), at, d and size, free, frozenset(av))
        if k in done:
            continue
        done.add(k)
        le = lambda a, b: S.le(a, b, lits)
        for n, (a, z) in ext.items():
            ok = any(le(z, x) for x in X)
            note('%s fit the room' % n, ok, 'no room is made for %s: they may end at %s%s' % (n, say(z), ', beyond the section %s' % S.why if S.why else ''))
        for (n, (a, z)), (m, (b, y)) in itertools.combinations(sorted(ext.items()), 2):
            note('%s and %s apart' % (n, m), le(z, b) or le(y, a), '%s and %s may overlap' % (n, m))
        ok = free or any(le(z, x) for x in av for z in [max_end(S, ext, lits)] if z is not None)
        note('space', ok, 'a section that is not the last one is not known to have the room')
        if d and at is not None:
            dirs = DIRECTORY.get(pat)
            for n, (a, z) in ext.items():
                if dirs is None or n in dirs:
                    note('the directory covers %s' % n, le(at, a) and le(z, plus(at, size)), 'the size of the directory does not cover %s' % n)
            if pat in EXACT:
                n = EXACT[pat]
                ok = n in ext and S.zero(plus(plus(at, size), ext[n][1], -1), lits)
                note('the directory ends with its last record', ok, 'the size of the directory is not that of its records')
            note('the directory is part of the room', any(le(plus(at, size), x) for x in X), 'the directory is larger than the room made for it')
        elif d:
            note('the directory is part of the room', False, 'the address of the directory could not be followed')
    if not done:
        note('space', False, 'never returns')
    n, bad = resizes(W)
    note('the section is not cut', not bad, bad[0][0] if bad else '', bad[0][1] if bad else None)
    return res, len(done), sorted(set(x for x in W.endof and [n for e in W.endof.values() for n in e]))


def max_end(S, ext, lits):
    """an end no sequence goes beyond"""
    es = [z for a, z in ext.values()]
    for z in es:
        if all(S.le(y, z, lits) for y in es):
            return z
    return None


def le(self, a, b, lits):
    k = ('le', a, b, lits if isinstance(lits, frozenset) else frozenset(lits))
    if k not in self.memo:
        self.why = None
        self.memo[k] = self.nonneg(plus(b, a, -1), set(lits))
    return self.memo[k]


Sizes.le = le
Sizes.zero = lambda self, d, lits: self.nonneg(d, set(lits), zero=True)
Sizes.quick = lambda self, d: self.nonneg(d, set())
SPECIAL = {}


EXP = p29.EXP
ORDS = ATOM(('count', 'ordinals'))


def ordinals(W, s, ext):
    """exports: the addresses of functions take 4 bytes for every ordinal from the least to the greatest, and the names written are those of the functions that have one"""
    S = W.sizes
    if not S.fixed:
        S.fixed = exports(W)
        S.collected = names(W)


@p29.keepctx
def exports(W):
    fns = ('exported_function', 'get_ordinal')
    recs = set()
    for v, s in W.P.rets:
        for h in W.loops:
            for k, cur, ent in s.visit.get(('in', h), ()):
                if cur[0] in ('op', 'any', 'cast') and heap.bits(cur) in (16, 32):
                    a = atom(lin(cur, 32))
                    if a is not None and a[0] == 'rec':
                        recs.add(a)
    r = {}
    lo = [a for a in sorted(recs) if p29.extreme(W, a, EXP, fns[0], fns[1], True)]
    hi = [a for a in sorted(recs) if p29.extreme(W, a, EXP, fns[0], fns[1], False)]
    if not lo or not hi or not noneless(W, hi, lo):
        return r
    for a in lo:
        r[a] = (ATOM(('least ordinal',)), num(0))
    for a in hi:
        r[a] = (ATOM(('least ordinal',)), plus(ORDS, num(M32)))
    if not unique(W) or p29.sorted_list(EXP, *fns)(W):
        return r
    L = [a for a in sorted(recs) if p29.lastord(W, a)]
    for a in sorted(recs):
        if a not in r and a not in L and W.P.backs.get(a[1]) and any(follows(W, a, b) for b in L if b[1] == a[1]):
            r[a] = (None, plus(plus(ORDS, ORDS), plus(ORDS, ORDS)))
    return r


def noneless(W, hi, lo):
    """without functions, the greatest ordinal is one less than the least"""
    for v, s in W.P.rets:
        if p29.empty(W, s, EXP):
            es = [[W.sizes.entry(a, s) for a in x] for x in (hi, lo)]
            if not all(x is not None and y is not None and const(plus(plus(x, y, -1), 1)) == 0 for x in es[0] for y in es[1]):
                return False
    return True


def follows(W, a, b):
    """a position that moves 4 bytes for every ordinal from the last function's (b) to this one's; the first function, which has the least ordinal, takes 4"""
    for s in W.P.backs[a[1]]:
        d = W.sizes.step(a, s)
        n = [lin(n, 32) for k, cur, n in s.visit.get(('nx', b[1]), ()) if cur[0] in ('op', 'any', 'cast') and heap.bits(cur) in (16, 32) and atom(lin(cur, 32)) == b]
        if d is None or len(n) != 1:
            return False
        x = plus(n[0], ATOM(b), -1)
        x = num(4) if x == num(0) else plus(plus(x, x), plus(x, x))
        W.ctx = s
        z = plus(x, d, -1)
        if z != num(0) and not any(('L', frozenset((y, q * k & M32) for y, q in t[1]), t[2] * k & M32) == z for t in nothing(W, s) for k in (1, 4, -1, -4)):
            return False
    return not W.taken(a[1], EXP)


def nothing(W, s):
    """terms known to be 0 on a path"""
    r = []
    for c in s.conds:
        t, pol = W.leaf(c)
        if not pol and t[0] in ('op', 'cast', 'any', 'ld') and heap.bits(t) == 32:
            r.append(lin(t, 32))
        if t[0] == 'cmp' and t[1] in ('eq', 'ne') and pol == (t[1] == 'eq') and heap.bits(t[2]) in (16, 32):
            r.append(plus(lin(t[2], 32), lin(t[3], 32), -1))
    return r


def unique(W):
    """functions with the same ordinal are refused: a set of the ordinals seen so far is asked for every function"""
    for h, L in W.P.backs.items():
        if W.taken(h, EXP) or not L:
            continue
        if all(asked(W, h, s) for s in L):
            return True
    return False


def asked(W, h, s):
    W.ctx = s
    calls = p29.iteration(W, s, h)
    made = set((last(c[1].name), ptr(c[2][0])) for c in calls if c[2] and last(c[1].name) in ('set', 'clear', 'erase', 'unordered_set', '~set'))
    for i, f, a, st in calls:
        if last(f.name) != 'insert' or len(a) != 2 or a[1][0] != 'p' or 'set<' not in f.dem or any(c == ptr(a[0]) for n, c in made):
            continue
        v = lin(W.P.load(st, a[1], 2, None), 16)
        es = p29.elements(W, s, EXP) + [(b, 0) for b, o in p29.bases(v, set())]
        if not any(narrow(subst(lin(t, 32), e), 16) == narrow(v, 16) for e in es if W.over(EXP, e) for t in W.getter('exported_function', 'get_ordinal')):
            continue
        for c in s.conds:
            t, pol = W.leaf(c)
            if pol and t[0] == 'ld' and t[2] == 8 and t[1][0] == 'agg' and t[1][1][0] in ('call', 'ret') and last(t[1][1][1]) == 'insert' and t[1][1][2][:1] == (a[0],) and t[1][1][2][1:] == (a[1],):
                return True
        # asked before, and not there
        for c in s.conds:
            t, pol = W.leaf(c)
            if t[0] in ('call', 'ret') and last(t[1]) == 'count' and t[2][:1] == (a[0],) and not pol:
                return True
    return False


def names(W):
    """the collection of names as a list made of the functions that have one"""
    off = [canon(t) for t in W.getter('exported_function', 'get_name')]
    lits = [canon(t) for t, pol in [W.leaf(t) for t in W.getter('exported_function', 'has_name')] if pol]
    if p29.by_name(W) or not off or not lits or off[0][0] != 'p':
        return lambda c: None
    lists = set()
    for h, s, recs in W.ends:
        for r in recs.get('names', ()):
            if r.E is not None:
                W.ctx = s
                lists.add(W.container(r.E)[0])

    def f(c):
        if c not in lists:
            return None
        E = lambda d: (('ref', ('elem', d)), 0)
        return ('p', EXP, 0), lambda d: subst(lits[0], E(d)), lambda d: subst(off[0], E(d))
    return f


# ---- resources: a tree of directories is measured and written by functions that call themselves
def changed(f):
    """positions and sizes given to be changed: indices of the parameters"""
    return [k for k, q in enumerate(f.params) if q == 'unsigned int&']


def rootarg(f):
    ks = [k for k, q in enumerate(f.params) if q.replace(' const', '') == 'pe_bliss::resource_directory&']
    return ks[0] if len(ks) == 1 else None


class Tree(object):
    """what one function that goes down a tree of directories adds to what it is given: for every value, the constant part and, for the entries, the ways an entry can go"""

    def __init__(self, dem, root, ks, W, slots):
        self.dem, self.root, self.ks = dem, root, ks
        self.why = None
        S = W.sizes = Sizes(W)
        S.slots = slots
        self.const, self.ways = {}, {}
        self.complete = W.P.complete
        self.even = {}
        for v, s in W.P.rets:
            W.ctx = s
            for k in ks:
                t = S.whole(lin(W.P.load(s, ('p', ('arg', k), 0), 4, None), 32), s)
                old = atom(lin(('ld', ('arg', k), 0, 4, 0), 32))
                d = plus(t, ATOM(old), -1)
                c = d[2]
                groups = {}
                for a, n in d[1]:
                    if isinstance(a, tuple) and a[:1] == ('sum',):
                        groups.setdefault(a[1], []).append((a, n))
                    elif a == ('n', ('p', ('arg', root), 24)):
                        groups.setdefault(None, []).append((a, n))
                    else:
                        self.why = 'by ' + say(ATOM(a))
                lists = set(a[3] for h, L in groups.items() if h is not None for a, n in L)
                if len(lists) > 1 or None in lists or any(x[:2] != ('p', ('arg', root)) for x in lists):
                    self.why = self.why or 'by a sum that is not over all entries'
                alts = set([(frozenset(), num(sum(n for a, n in groups.get(None, ())) & M32))])
                for h, L in groups.items():
                    if h is None:
                        continue
                    o = S.options(h, tuple(L), 0)
                    if o is None:
                        self.why = self.why or 'by a value that could not be followed'
                        o = ()
                    alts = set((l | nl, plus(d, x)) for l, d in alts for nl, x in o if not S.contra(l | nl))
                self.const.setdefault(k, set()).add(c)
                self.ways.setdefault(k, set()).update(alts)
        if not W.P.rets:
            self.why = 'never returns'
        self.steps = dict((k, self.aligned(W, k)) for k in ks)
        self.same = set((k, j) for k in ks for j in ks if self.equal(W, k, j))

    def carried(self, W, k):
        """the value carried around the loop over the entries"""
        r = set()
        for L in W.P.backs.values():
            for s in L:
                for h in W.loops:
                    for key, cur, nxt in s.visit.get(('nx', h), ()):
                        if key == ('m', (('arg', k), 0)):
                            r.add((h, atom(lin(cur, 32))))
        return r.pop() if len(r) == 1 else (None, None)

    def aligned(self, W, k):
        """[(truths, what is added, what is added to the value rounded up to 4 and whether that is a multiple of 4)]"""
        S, r = W.sizes, set()
        h, a = self.carried(W, k)
        if a is None:
            return None
        for s in W.P.backs[h]:
            W.ctx = s
            m = {h: 0}
            l = S.literals(s, m)
            if S.contra(l):
                continue
            d = S.step(a, s)
            if d is None:
                return None
            W.ctx = s
            x = None
            low = [b for b, c in d[1] if b[:2] == ('low', 2) and b[2] == ATOM(a) and c == M32]
            if low:
                x = plus(plus(d, ATOM(low[0])), num(4), -1)
            elif any(z == narrow(ATOM(a), 2) for z in zeros(W, s, 2)):
                x = d
            r.add((frozenset(l), S.norm(d, s, m), None if x is None else S.norm(x, s, m), x is not None and S.ismult(x, 2, s)))
        return r

    def equal(self, W, k, j):
        S = W.sizes
        (h, a), (g, b) = self.carried(W, k), self.carried(W, j)
        if a is None or h != g or b is None:
            return False
        for s in W.P.backs[h]:
            x, y = S.step(a, s), S.step(b, s)
            if x is None or y is None or unslot(x, self.dem) != unslot(y, self.dem):
                return False
        return self.const[k] == self.const[j] == set([0])


def unslot(t, dem):
    if isinstance(t, frozenset):
        return frozenset((unslot(a, dem), c) for a, c in t)
    if isinstance(t, tuple):
        return ('grow', dem, None, t[3]) if t[:2] == ('grow', dem) else tuple(unslot(x, dem) for x in t)
    return t


def zeros(W, s, j):
    """terms a path has found to be multiples of 2^j"""
    r = []
    for c in s.conds:
        x, pol = W.leaf(c)
        if not pol and x[0] in ('op', 'cast', 'any'):
            x = canon(x)
            a = atom(x) if x[0] == 'L' else None
            if a is not None and a[0] == 'low' and a[1] >= j:
                r.append(narrow(a[2], j))
    return r


def rounded(F, k, R, j):
    """value k of F, rounded up to 4, is at least value j of R rounded up, when they begin equal; and it is rounded up once anything has been added"""
    if F.why or R.why:
        return F.why or R.why
    if not F.steps[k] or not R.steps[j]:
        return 'the size could not be followed'
    pair = set([((F.dem, k), (R.dem, j))])
    if F.const[k] != set([0]) or R.const[j] != set([0]):
        return 'something is added for every directory'
    for lf, d, x, m in F.steps[k]:
        for lr, e, y, q in R.steps[j]:
            l = frozenset((lift(a, F.root), q) for a, q in lf) | frozenset((lift(a, R.root), q) for a, q in lr)
            if any((a, not q) in l for a, q in l):
                continue
            d1, e1 = lift(d, F.root), lift(e, R.root)
            if x is None or y is None:
                # nothing is added by either, or the same below
                if d1 == e1 == num(0) or atom(d1) is not None and atom(e1) is not None and atom(d1)[:3] == ('grow', F.dem, k) and atom(e1)[:3] == ('grow', R.dem, j) and atom(d1)[3] == atom(e1)[3]:
                    continue
                return 'by the space for alignment, which depends on the order of the entries'
            if not m:
                return 'by the space for alignment, which depends on the order of the entries'
            why = least(plus(lift(x, F.root), lift(y, R.root), -1), pair)
            if why:
                return why
    return None


def lift(t, root):
    """a value about an entry without the number of the parameter"""
    def f(t):
        if isinstance(t, frozenset):
            return frozenset((f(a), c) for a, c in t)
        if not isinstance(t, tuple):
            return t
        if t == ('arg', root):
            return ('arg', 'root')
        if t[:1] == ('grow',):
            return ('grow', t[1], t[2], f(t[3]))
        return tuple(f(y) for y in t)
    return f(t)


def tree(p, f, view, slots, root, ks):
    VERSIONED.clear()
    VERSIONED.update(('arg', k) for k in ks)
    MEMO.clear()
    P = heap.Paths(p, f, own=[('arg', k) for k in ks], ind=True, watch=p29.WATCH + tuple(set(last(q.split('(')[0]) for q in slots)))
    W = Writer(P, f, None, view)
    W.memo, W.bind, W.objcls, W.w, W.dirpos, W.section, W.streams = {}, {}, {}, 4, None, None, []
    W.count = W.run([])
    return Tree(f.dem, root, ks, W, slots)


def covers(F, k, R, j, pairs):
    """what F adds to value k is at least what R adds to value j; pairs: taken to be so for the directories below"""
    if F.why or R.why:
        return F.why or R.why
    if len(F.const[k]) != 1 or len(R.const[j]) != 1:
        return 'the size does not depend on the entries alone'
    c = plus(num(list(F.const[k])[0]), num(list(R.const[j])[0]), -1)[2]
    if c >> 31:
        return 'by %d bytes for every directory' % ((1 << 32) - c)
    for lf, x in F.ways[k]:
        for lr, y in R.ways[j]:
            l = frozenset((lift(a, F.root), q) for a, q in lf) | frozenset((lift(a, R.root), q) for a, q in lr)
            if any((a, not q) in l for a, q in l):
                continue
            d = plus(lift(x, F.root), lift(y, R.root), -1)
            why = least(d, pairs)
            if why:
                return why
    return None


def least(d, pairs):
    """None when a difference is at least 0"""
    n = d[2] - (1 << 32) if d[2] >> 31 else d[2]
    rest = {}
    for a, c in d[1]:
        rest[a] = c - (1 << 32) if c >> 31 else c
    for a in list(rest):
        if isinstance(a, tuple) and a[:1] == ('grow',) and rest[a] < 0:
            for b in list(rest):
                if isinstance(b, tuple) and b[:1] == ('grow',) and rest[b] >= -rest[a] and b[3] == a[3] and ((b[1], b[2]), (a[1], a[2])) in pairs:
                    rest[b] += rest[a]
                    rest[a] = 0
                    break
        if isinstance(a, tuple) and a[:1] == ('low',) and rest[a] < 0:
            n += rest[a] * ((1 << a[1]) - 1)
            rest[a] = 0
    neg = [a for a in rest if rest[a] < 0]
    if neg or n < 0:
        return 'by ' + say(('L', frozenset((a, c & M32) for a, c in rest.items() if c), n & M32))
    return None


def resources(job):
    """obligations about the function that rebuilds resources"""
    p = ir.load('mod')
    rd = ir.load('rd')
    heap.MAXPATHS = 2000000
    f = [f for f in p.repo_fns() if f.dem == job[2]][0]
    views = {}

    def view(c):
        if c not in views:
            views[c] = View(rd, 'pe_bliss::' + c, c) if 'pe_bliss::' + c in rd.types else None
        return views[c]
    slots = {}
    for q in p.repo_fns():
        if q.has_body and changed(q) and rootarg(q) is not None and any(q.dem == c.dem for c in callees(p, q)):
            slots[q.dem] = (rootarg(q), changed(q), q)
    trees = {}
    used = set(c.dem for c in callees(p, f)) & set(slots)
    sl = dict((d, x[:2]) for d, x in slots.items())
    for d in used:
        trees[d] = tree(p, slots[d][2], view, sl, slots[d][0], slots[d][1])
    writer = [d for d in used if any(q == 'pe_bliss::section&' for q in slots[d][2].params)]
    res = {}

    def note(key, ok, msg, loc=None):
        o = res.setdefault(key, [0, None])
        o[0] += 1
        if not ok and o[1] is None:
            o[1] = (loc, msg)
    if len(writer) != 1:
        note('space', False, 'no function that writes a directory and those below was found')
        return job[2], True, (res, 0, [])
    R = trees[writer[0]]
    sizers = [trees[d] for d in used if d != writer[0]]
    below = {}
    reason = {}
    for j in R.ks:
        for F in sizers:
            for k in F.ks:
                pair = set([((F.dem, k), (R.dem, j))])
                why = covers(F, k, R, j, pair)
                if why is None:
                    below.setdefault(j, []).append((F.dem, k, False))
                else:
                    why = rounded(F, k, R, j)
                    if why is None:
                        below.setdefault(j, []).append((F.dem, k, True))
                        for x, y in F.same:
                            if x == k and y != k:
                                below[j].append((F.dem, y, k))
                if why is not None:
                    reason.setdefault(j, []).append(why)
    # the function itself
    VERSIONED.clear()
    MEMO.clear()
    locs = [('loc', k) for k in range(64)]
    VERSIONED.update(locs)
    P = heap.Paths(p, f, own=[('arg', 0)] + locs, ind=True, watch=p29.WATCH + tuple(last(d.split('(')[0]) for d in slots))
    W = Writer(P, f, ('p', ('arg', 2), 0), view)
    W.memo, W.bind, W.objcls, W.w, W.dirpos, W.section, W.streams = {}, {}, {}, 4, None, ('p', ('arg', 2), 0), []
    W.count = W.run([])
    S = W.sizes = Sizes(W)
    S.slots = sl
    done = set()
    for v, s in P.rets:
        W.ctx = s
        calls = [(b, j) + P.seen[j] for b, j in s.visit.get('log', ()) if P.seen[j][1].dem in sl]
        w = [c for c in calls if c[3].dem == R.dem]
        if len(w) != 1:
            note('space', False, 'the directories are written %d times' % len(w), f.loc if hasattr(f, 'loc') else None)
            continue
        i, g, a, st = w[0][2:]
        root = canon(a[R.root])
        at = {}
        for j in R.ks:
            at[j] = S.whole(lin(P.load(st, a[j], 4, None), 32), s)
        # what is known about what the writer adds
        ge = {}
        for j in R.ks:
            for d, k, how in below.get(j, ()):
                c = [x for x in calls if x[3].dem == d and canon(x[4][sl[d][0]]) == root]
                if len(c) != 1:
                    continue
                b0 = [S.whole(lin(P.load(c[0][5], c[0][4][x], 4, None), 32), s) for x in ([k if how is True else how] if how is not False else [])]
                if how is not False and b0[0] != at[j]:
                    reason.setdefault(j, []).insert(0, 'by the space for alignment, which is measured from another position')
                    continue
                ge.setdefault(('grow', R.dem, j, ('ref', root)), []).append(('grow', d, k, ('ref', root)))
        X = [S.whole(x, s) for x in rooms(W, s, [])]
        av = [S.whole(x, s) for x in avail(W, s)]
        free = lastsection(W, s)
        ext = dict((j, (at[j], plus(at[j], ATOM(('grow', R.dem, j, ('ref', root)))))) for j in R.ks)
        d = parts(v)
        x = call(lin(d[0], 32), 'rva_from_section_offset') if d else None
        dat = S.whole(x[-1], s) if x is not None else None
        size = S.whole(lin(d[1], 32), s) if d else None
        k = (tuple(sorted(ext.items(), key=repr)), frozenset(X), frozenset(av), free, dat, size)
        if k in done:
            continue
        done.add(k)

        def le(a, b):
            D = plus(b, a, -1)
            n = D[2] - (1 << 32) if D[2] >> 31 else D[2]
            rest = dict((t, c - (1 << 32) if c >> 31 else c) for t, c in D[1])
            for t in list(rest):
                if t in ge and rest[t] < 0:
                    for o in ge[t]:
                        if rest.get(o, 0) >= -rest[t]:
                            rest[o] += rest[t]
                            rest[t] = 0
                            break
                elif isinstance(t, tuple) and t[:1] == ('low',) and rest[t] < 0:
                    n += rest[t] * ((1 << t[1]) - 1)
                    rest[t] = 0
            return n >= 0 and all(c >= 0 for c in rest.values())
        loc = i.loc
        for j, (y, z) in ext.items():
            why = reason.get(j, [''])[0]
            note('%s fit the room' % name(g, j), any(le(z, t) for t in X), 'no room is made for %s: they may end at %s%s' % (name(g, j), say(z), ', beyond the section ' + why if why else ''), loc)
            note('the directory covers %s' % name(g, j), dat is not None and le(dat, y) and le(z, plus(dat, size)), 'the size of the directory does not cover %s' % name(g, j), loc)
        for (j, (y, z)), (k, (u, t)) in itertools.combinations(sorted(ext.items()), 2):
            note('%s and %s apart' % (name(g, j), name(g, k)), le(z, u) or le(t, y), '%s and %s may overlap' % (name(g, j), name(g, k)), loc)
        note('the directory is part of the room', dat is not None and any(le(plus(dat, size), t) for t in X), 'the directory is larger than the room made for it', loc)
        note('space', free or any(all(le(z, t) for y, z in ext.values()) for t in av), 'a section that is not the last one is not known to have the room', loc)
    if not done:
        note('space', False, 'never returns')
    n, bad = resizes(W)
    note('the section is not cut', not bad, bad[0][0] if bad else '', bad[0][1] if bad else None)
    return job[2], P.complete and all(t.complete for t in trees.values()), (res, len(done), sorted(t for t in trees))


NAMES = ['tables', 'data', 'strings']


def name(g, j):
    """the values the writer is given, in order"""
    ks = changed(g)
    return NAMES[ks.index(j)] if len(ks) == len(NAMES) else 'part %d' % j


def callees(p, f):
    return [p.fns[i.callee] for i in f.instrs() if i.callee in p.fns]


SPECIAL['rebuild_exports'] = ordinals
# sequences that belong to the directory (all, if not given)
DIRECTORY = {'rebuild_imports_base': ['descriptors', 'address table', 'lookup table'], 'rebuild_image_config_base': ['header']}
EXACT = {'rebuild_relocations': 'blocks'}
ROOM_OF_TREES = 'rebuild_resource_directory'


def work():
    p, jobs = p29.work()
    r = [('list', j) for j in jobs if p29.SPECS[j[0]][0] != ROOM_OF_TREES]
    for f in sorted((f for f in p.repo_fns() if f.has_body and re.match(r'rebuild_resources(<|$|\()', f.short)), key=lambda f: f.dem):
        r.append(('tree', (0, 'mod', f.dem)))
    return p, r


def guarded(job):
    kind, j = job
    try:
        d, complete, r = (analyse if kind == 'list' else resources)(j)
        return job, (d, complete, r), None
    except Broken as e:
        return job, None, str(e)


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18', 'tools/irx', 'pv/heap.py', 'pv/wstream.py']
    ck.explanation = ('On every path of every rebuilding function that returns, the end of every table and string it writes is a sum over the given lists; it is compared with the sum the section was measured or '
                      'resized for, with the starts of the other tables, and with the directory returned. Sums are compared term by term over the same list under the same conditions, whatever the lists hold. For resources '
                      'the recursive measuring and writing functions are summarised by what each entry adds, and compared entry by entry.')
    p, jobs = work()
    res = {}
    with multiprocessing.get_context('fork').Pool(min(8, max(1, len(jobs)))) as pool:
        for job, r, err in pool.imap_unordered(guarded, jobs, 1):
            res[repr(job)] = (r, err)
    byfn = {}
    for j in jobs:
        byfn.setdefault(j[1][2], []).append(j)
    names = set()
    for dem, js in byfn.items():
        f = [f for f in p.repo_fns() if f.dem == dem][0]
        at = fnloc(f)
        names.add(re.match(r'\w+', f.short).group(0))
        rs = []
        for j in js:
            r, err = res[repr(j)]
            if err:
                raise Broken(err)
            rs.append(r)
        ok = all(r[1] for r in rs)
        ck.ob(ok, f.short + ': analysable', at, 'the paths of the function could not be followed')
        if not ok:
            continue
        notes = {}
        for d, c, (r, n, ss) in rs:
            ck.count('distinct path ends', n)
            ck.count('comparisons', sum(m for m, b in r.values()))
            for key, (m, b) in r.items():
                if notes.get(key) is None:
                    notes[key] = b
        for key, b in sorted(notes.items()):
            ck.ob(b is None, '%s: %s' % (f.short, key), (b[0] if b else None) or at, b[1] if b else '')
    ck.need(len(names), 7, 'rebuilding functions')
