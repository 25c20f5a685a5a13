"""Bit-level view of heap terms: every bit of a value as a boolean expression over bits of the initial state.
An expression is 0, 1, ('b', leaf, i), ('not', x), ('and'|'or'|'xor', x, y)."""
from .heap import bits

NO = None


def NOT(x):
    if x in (0, 1):
        return 1 - x
    return x[1] if x[0] == 'not' else ('not', x)


def op(o, x, y):
    if o == 'and':
        if x == 0 or y == 0:
            return 0
        if x == 1:
            return y
        if y == 1 or x == y:
            return x
    elif o == 'or':
        if x == 1 or y == 1:
            return 1
        if x == 0:
            return y
        if y == 0 or x == y:
            return x
    else:
        if x == y:
            return 0
        if x == 0:
            return y
        if y == 0:
            return x
        if x == 1:
            return NOT(y)
        if y == 1:
            return NOT(x)
    if repr(y) < repr(x):
        x, y = y, x
    return (o, x, y)


def red(o, xs, start):
    r = start
    for x in xs:
        r = op(o, r, x)
    return r


ZERO = set()     # bits assumed to be zero (set by the caller around bv)


def bv(t):
    """bits of t, least significant first"""
    r = bv1(t)
    return [0 if x in ZERO else x for x in r] if ZERO else r


def bv1(t):
    n = bits(t)
    k = t[0]
    if k == 'c':
        return [t[1] >> i & 1 for i in range(n)]
    if k == 'ld' and isinstance(t[2], int):
        return [('b', ('ld', t[1], t[2] + i // 8, t[4]), i % 8) for i in range(n)]
    if k == 'cast':
        x = bv(t[4])
        if t[1] == 'trunc':
            return x[:t[3]]
        return x + [x[-1] if t[1] == 'sext' else 0] * (t[3] - t[2])
    if k == 'op':
        o = t[1]
        x = bv(t[3])
        if o in ('and', 'or', 'xor'):
            return [op(o, a, b) for a, b in zip(x, bv(t[4]))]
        if o in ('shl', 'lshr', 'ashr') and t[4][0] == 'c':
            m = t[4][1]
            if o == 'shl':
                return ([0] * m + x)[:n]
            return x[m:] + [x[-1] if o == 'ashr' else 0] * min(m, n)
        if o in ('mul', 'udiv', 'urem') and t[4][0] == 'c' and t[4][1] and t[4][1] & (t[4][1] - 1) == 0:
            m = t[4][1].bit_length() - 1
            if o == 'mul':
                return ([0] * m + x)[:n]
            return x[m:] + [0] * m if o == 'udiv' else x[:m] + [0] * (n - m)
        if o == 'mul' and t[3][0] == 'c' and t[3][1] and t[3][1] & (t[3][1] - 1) == 0:
            return ([0] * (t[3][1].bit_length() - 1) + bv(t[4]))[:n]
        if o == 'add':
            y = bv(t[4])
            if all(a == 0 or b == 0 for a, b in zip(x, y)):
                return [op('or', a, b) for a, b in zip(x, y)]
            if t[4][0] == 'c' or t[3][0] == 'c':
                return adder(x, y, 0)
        if o == 'sub' and t[3] == ('c', (1 << n) - 1, n):
            return [NOT(b) for b in bv(t[4])]
        if o == 'sub' and t[3][0] == 'c':
            return adder(x, [NOT(b) for b in bv(t[4])], 1)
    if k == 'cmp':
        x, y = bv(t[2]), bv(t[3])
        if t[1] in ('eq', 'ne') and len(x) == len(y):
            r = red('and', [NOT(op('xor', a, b)) for a, b in zip(x, y)], 1)
            return [r if t[1] == 'eq' else NOT(r)]
        if t[1] in ('ugt', 'ult', 'uge', 'ule') and t[3][0] == 'c':
            return [unsigned(t[1], x, y)]
    return [('b', t, i) for i in range(n)]


def adder(x, y, c):
    r = []
    for a, b in zip(x, y):
        s = op('xor', a, b)
        r.append(op('xor', s, c))
        c = op('or', op('and', a, b), op('and', s, c))
    return r


def unsigned(p, x, y):
    lt, eq = 0, 1
    for a, b in reversed(list(zip(x, y))):
        lt = op('or', lt, op('and', eq, op('and', NOT(a), b)))
        eq = op('and', eq, NOT(op('xor', a, b)))
    return {'ult': lt, 'ule': op('or', lt, eq), 'ugt': NOT(op('or', lt, eq)), 'uge': NOT(lt)}[p]


def leaves(x, r=None):
    if r is None:
        r = set()
    if isinstance(x, tuple):
        if x[0] == 'b':
            r.add(x)
        else:
            for y in x[1:]:
                leaves(y, r)
    return r


def ev(x, env):
    if not isinstance(x, tuple):
        return x
    if x[0] == 'b':
        return env[x]
    if x[0] == 'not':
        return 1 - ev(x[1], env)
    a = ev(x[1], env)
    if x[0] == 'and':
        return a and ev(x[2], env)
    if x[0] == 'or':
        return a or ev(x[2], env)
    return a ^ ev(x[2], env)


MAXLEAVES = 14


def equal(x, y, conds=()):
    """x == y for every assignment that satisfies the one-bit expressions conds; None when too big to tell"""
    if x == y:
        return True
    need = leaves(x) | leaves(y)
    cs = []
    grew = True
    rest = [c for c in conds if c != 1]
    while grew:
        grew = False
        for c in list(rest):
            l = leaves(c)
            if l & need and len(l | need) <= MAXLEAVES:
                need |= l
                cs.append(c)
                rest.remove(c)
                grew = True
    if len(need) > MAXLEAVES:
        return None
    ls = sorted(need, key=repr)
    for m in range(1 << len(ls)):
        env = dict((l, m >> i & 1) for i, l in enumerate(ls))
        if all(ev(c, env) for c in cs) and ev(x, env) != ev(y, env):
            return False
    return True


def same(t, u, conds=()):
    """two terms have equal values (u may be wider or narrower: compared on the smaller width, the rest zero)"""
    a, b = bv(t), bv(u)
    n = max(len(a), len(b))
    a, b = a + [0] * (n - len(a)), b + [0] * (n - len(b))
    cs = [bv(c)[0] for c in conds]
    return all(equal(x, y, cs) for x, y in zip(a, b))
