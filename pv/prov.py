"""Where values come from: terms of heap.Paths rewritten as reads of the image at an address (relative virtual address, or virtual address),
independent of how the code gets at the bytes (structure, pointer, single value, position kept as counter or as pointer)."""
import re
from . import heap, bitv
from .heap import C, bits, mkop, mkcmp, mkcast


def addr(t, r=None, k=1):
    """address term -> ({normalised atom: coefficient}, constant)"""
    if r is None:
        r = {}
    while True:
        if t[0] == 'cast' and t[1] == 'trunc':
            u = norm(t)
            if u != t:
                t = u
                continue
        if t[0] == 'cast' and t[1] in ('zext', 'sext') and t[2] > 1 or t[0] == 'cast' and t[1] == 'trunc' and t[3] >= 32:
            t = t[4]
        elif t[0] == 'op' and t[1] == 'shl' and t[4][0] == 'c':
            k, t = k << t[4][1], t[3]
        elif t[0] == 'op' and t[1] == 'mul' and t[4][0] == 'c':
            k, t = k * t[4][1], t[3]
        elif t[0] == 'op' and t[1] == 'mul' and t[3][0] == 'c':
            k, t = k * t[3][1], t[4]
        else:
            break
    if t[0] == 'c':
        v = t[1]
        if t[2] > 1 and v >> (t[2] - 1):
            v -= 1 << t[2]
        return r, k * v
    if t[0] == 'p':
        a, n = addr(t[1][1], r, k) if t[1][0] == 'ref' else add(r, ('base',) + t[1], k)
        o, m = offset(t[2], r, k)
        return r, n + m
    if t[0] == 'op' and t[1] in ('add', 'sub'):
        _, a = addr(t[3], r, k)
        _, b = addr(t[4], r, k if t[1] == 'add' else -k)
        return r, a + b
    t = norm(t)
    if t[0] == 'ptr':        # pointer into the image
        for a, c in t[1]:
            add(r, a, c * k)
        return r, t[2] * k
    if t[0] == 'c' or t[0] == 'op' or t[0] == 'cast' and not (t[1] == 'trunc' and t[3] < 32) and t[2] > 1:
        if t[0] == 'c' or t[0] == 'cast' or t[1] in ('add', 'sub') or t[1] in ('mul', 'shl') and 'c' in (t[3][0], t[4][0]):
            return addr(t, r, k)
    add(r, t[1] if t[0] == 'any' and t[1][0] == 'iter' else t, k)
    return r, 0


def add(r, a, k):
    r[a] = r.get(a, 0) + k
    if not r[a]:
        del r[a]
    return r, 0


def offset(o, r, k):
    if isinstance(o, int):
        return r, o * k
    n = o[0] * k
    for v, m in o[1]:
        _, c = addr(v, r, k * m)
        n += c
    return r, n


def key(r):
    return tuple(sorted(r.items(), key=repr))


def img(kind, a, off, size):
    """size bytes at address term a plus off"""
    r, n = addr(a)
    return ('ld', (kind, key(r)), n + off, size, 0)


SD = 'section_data_from_'


def source(t):
    """call of one of the image access functions -> (kind, address term, is pointer)"""
    if t[0] not in ('call', 'ret') or SD not in t[1]:
        return None
    last = t[1].split('::section_data_from_')[-1]
    kind = 'img' if last.startswith('rva') else 'va' if last.startswith('va') else None
    if kind is None:
        return None
    a = t[2]
    if len(a) < 2:
        return None
    return kind, a[1], '<' not in last


MEMO = {}


def norm(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t in MEMO:
        return MEMO[t]
    r = norm1(t)
    MEMO[t] = r
    return r


def norm1(t):
    k = t[0]
    if k == 'ld' and len(t) == 5:
        ep = t[4]
        if isinstance(ep, tuple) and ep and ep[0] == 'ret':
            s = source(ep)
            if s and isinstance(t[2], int):
                return img(s[0], s[1], t[2], t[3])
        if t[1][0] == 'agg' and isinstance(t[2], int):
            s = source(t[1][1])
            if s:
                return img(s[0], s[1], t[2], t[3])
        if t[1][0] == 'ref':
            b = norm(t[1][1])
            if b[0] == 'ptr':
                r = dict(b[1])
                _, n = offset(t[2], r, 1)
                return ('ld', (b[3], key(r)), b[2] + n, t[3], 0)
            r, n = addr(t[1][1])
            _, m = offset(t[2], r, 1)
            return ('ld', ('mem', key(r)), n + m, t[3], 0)
        return t
    if k == 'call' and len(t) == 5:
        if t[1] in ('dir', 'dirsize', 'rva'):
            return t
        s = source(t)
        if s:
            if s[2]:
                r, n = addr(s[1])
                return ('ptr', key(r), n, s[0])
            return img(s[0], s[1], 0, t[3] // 8)
        m = t[1].split('::')[-1]
        if m == 'get_directory_rva' and len(t[2]) == 2 and t[2][1][0] == 'c':
            return ('call', 'dir', t[2][1][1], 32, ())
        if m == 'get_directory_size' and len(t[2]) == 2 and t[2][1][0] == 'c':
            return ('call', 'dirsize', t[2][1][1], 32, ())
        if m == 'va_to_rva' and len(t[2]) >= 2:
            return ('call', 'rva', wide(norm(t[2][1])), t[3], ())
        return ('call', t[1], tuple(norm(x) for x in t[2]), t[3], ())
    if k == 'op':
        return shrink(mkop(t[1], t[2], norm(t[3]), norm(t[4])))
    if k == 'cast':
        return shrink(mkcast(t[1], t[2], t[3], norm(t[4])))
    if k == 'cmp':
        return mkcmp(t[1], norm(t[2]), norm(t[3]))
    if k == 'p' and t[1][0] == 'ref' or k == 'p' and not isinstance(t[2], int):
        if t[1][0] == 'ref':
            b = norm(t[1][1])
            if b[0] == 'ptr':
                r = dict(b[1])
                _, n = offset(t[2], r, 1)
                return ('ptr', key(r), b[2] + n, b[3])
        return t
    if k == 'of' and len(t) == 4:
        return ('of', t[1], tuple(norm(x) for x in t[2]))
    return t


def wide(t):
    return t[4] if t[0] == 'cast' and t[1] in ('zext', 'trunc') else t


def shrink(t):
    """whole bytes cut out of a read are a smaller read"""
    if t[0] == 'cast' and t[1] == 'trunc' and t[3] % 8 == 0:
        x, sh = t[4], 0
        if x[0] == 'op' and x[1] in ('lshr', 'ashr') and x[4][0] == 'c' and x[4][1] % 8 == 0:
            x, sh = x[3], x[4][1] // 8
        if x[0] == 'ld' and x[4] == 0 and isinstance(x[2], int) and x[1][0] in ('img', 'va', 'mem') and sh + t[3] // 8 <= x[3]:
            return ('ld', x[1], x[2] + sh, t[3] // 8, 0)
    if t[0] == 'op' and t[1] == 'or':
        for a, b in ((t[3], t[4]), (t[4], t[3])):
            lo, hi = part(a), part(b[3]) if b[0] == 'op' and b[1] == 'shl' and b[4][0] == 'c' else None
            if lo and hi and lo[1] == hi[1] and lo[2] + lo[3] == hi[2] and b[4][1] == 8 * lo[3] and 8 * (lo[3] + hi[3]) == t[2]:
                return ('ld', lo[1], lo[2], lo[3] + hi[3], 0)
    return t


def part(t):
    """the read that a value extends by zeroes"""
    if t[0] == 'cast' and t[1] == 'zext':
        t = t[4]
    return t if t[0] == 'ld' and t[4] == 0 and isinstance(t[2], int) and t[1][0] in ('img', 'va', 'mem') else None


def cells(P, s, b, o, size):
    """value of a cell at base b"""
    return norm(P.cell(s, b, o, size))


def equal(t, u, conds=()):
    """the values of two normalised terms agree"""
    if t == u:
        return True
    if t[0] in ('ptr', 'of', 'empty') or u[0] in ('ptr', 'of', 'empty'):
        return False
    try:
        if bitv.same(t, u, conds):
            return True
    except (KeyError, IndexError, TypeError):
        pass
    w = bits(u)
    if bits(t) == w:
        r, n = heap.lindiff(t, u, w)
        return not r and n == 0
    return False


def iters(t, r=None):
    """iteration and recurrence atoms in a term"""
    if r is None:
        r = []
    if isinstance(t, tuple):
        if t[:1] in (('iter',), ('rec',), ('phi',)) and t not in r:
            r.append(t)
        else:
            for x in t:
                iters(x, r)
    return r


def say(t):
    """a readable form"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'c':
        return hex(t[1]) if t[1] > 9 else str(t[1])
    if k == 'ld' and t[1][0] in ('img', 'va', 'mem'):
        return '%s[%s:%d]' % ({'img': 'image', 'va': 'image at va ', 'mem': ''}[t[1][0]], place(t[1][1], t[2]), t[3])
    if k == 'ptr':
        return 'address ' + place(t[1], t[2])
    if k == 'ld':
        return 'initial[%s:%s]' % (t[2], t[3])
    if k == 'op':
        return '(%s %s %s)' % (say(t[3]), t[1], say(t[4]))
    if k == 'cast':
        return '%s%d(%s)' % (t[1], t[3], say(t[4]))
    if k == 'cmp':
        return '%s %s %s' % (say(t[2]), t[1], say(t[3]))
    if k == 'call' and t[1] in ('dir', 'dirsize'):
        return '%s %d' % ({'dir': 'directory', 'dirsize': 'directory size'}[t[1]], t[2])
    if k == 'call' and t[1] == 'rva':
        return 'rva of (%s)' % say(t[2])
    if k == 'call':
        return '%s(...)' % t[1].split('::')[-1]
    if k == 'of':
        return 'text at ' + ', '.join(say(x) for x in t[2])
    if k in ('iter', 'rec', 'phi'):
        return k
    if k == 'any':
        return '?' + (t[1][0] if isinstance(t[1], tuple) else '')
    if k == 'p':
        return 'pointer'
    return k


def place(r, n):
    return ' + '.join([(say(a) if c == 1 else '%d*%s' % (c, say(a))) for a, c in r] + ([str(n)] if n else [])) or '0'
