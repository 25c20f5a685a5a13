"""Object shapes and deep-copy comparison on top of heap.py."""
from .heap import C, NULL, mkcmp, assume, decide, bits, mkcast
from .ir import strip_tpl


def leaves(p, cls, base=0, pre=''):
    """[(path, offset, size, kind, type)] of a class: kind s(calar), p(ointer), u(nion of pointers), k (library object), a(rray)"""
    t = p.types[cls]
    r = []
    for b in t.get('b') or ():
        if b[0] in p.types:
            r += leaves(p, b[0], base + b[1], pre)
    for m in t['m']:
        name, off, _, _, _, ty, size, kind = m
        if name.startswith('_vptr'):
            continue
        path = pre + name
        if kind == 'c' and ty in p.types:
            ut = p.types[ty]
            if ut.get('tag') == 'union' and ut['m'] and all(x[7] == 'p' for x in ut['m']):
                r.append((path, base + off, 8, 'u', [x[5] for x in ut['m']]))
            elif ut.get('tag') == 'union':
                r.append((path, base + off, ut['sz'], 'a', ty))
            else:
                r += leaves(p, ty, base + off, path + '.')
        elif kind == 'c':
            r.append((path, base + off, size, 'k', ty))
        else:
            r.append((path, base + off, size, kind, ty))
    return r


def tname(t):
    return t[:-1].replace('const ', '') if t.endswith(('*', '&')) else t


def owners(p, cls):
    """pointer leaves of a class that own what they point to: (leaf, classes)"""
    r = []
    for l in leaves(p, cls):
        ts = l[4] if l[3] == 'u' else [l[4]] if l[3] == 'p' else []
        ts = [tname(t) for t in ts if t.endswith('*') and not t.startswith('const ')]
        if ts and all(t in p.types for t in ts):
            r.append((l, ts))
    return r


def same(s, v, w):
    """v is w in the state"""
    if v == w:
        return True
    if v[0] == 'cast' and v[1] == 'zext' and v[2] == 1 and v[4] == mkcmp('ne', w, C(0, bits(w))):
        return True     # bool normalised
    if bits(v) != bits(w):
        return False
    return decide(s, mkcmp('eq', v, w)) is True


class Copy(object):
    """compares an object with the object it should be a copy of, in an end state"""

    def __init__(self, P, s, tags, dyn=None):
        self.P, self.s, self.p = P, s, P.p
        self.tags = tags      # class -> (tag offset, tag size, {tag value: class})
        self.dyn = dyn or {}  # static class -> dynamic class
        self.bad = []

    def run(self, cls, dst, src, path='', epoch=0):
        """dst, src: (base, off)"""
        P, s = self.P, self.s
        own = dict((l[0], ts) for l, ts in owners(self.p, cls))
        for name, off, size, kind, ty in leaves(self.p, cls):
            w = path + name
            if name in own:
                self.pointer(cls, name, off, own[name], dst, src, w)
                continue
            if kind == 'k':
                c = P.content(s, ('p', dst[0], dst[1] + off))
                self.cont(c, ('init', src[0], src[1] + off, 0), w, (dst[0], dst[1] + off))
                continue
            if kind == 'a':
                bs = [P.cell(s, dst[0], dst[1] + off + j, 1) for j in range(size)]
                if not all(same(s, b, ('ld', src[0], src[1] + off + j, 1, 0)) for j, b in enumerate(bs)):
                    self.miss(w, 'not copied')
                continue
            v = P.cell(s, dst[0], dst[1] + off, size)
            if not same(s, v, ('ld', src[0], src[1] + off, size, 0)):
                self.miss(w, 'is %s after the copy' % say(v))

    def miss(self, w, why):
        self.bad.append('member %s %s' % (w, why))

    def cont(self, c, want, w, k):
        if c != want and not (c[0] == 'init' and k == (want[1], want[2]) and c[1:3] == want[1:3]):
            self.miss(w, 'does not get the content of the source (%s)' % say(c))

    def pointer(self, cls, name, off, ts, dst, src, w):
        P, s = self.P, self.s
        v = P.cell(s, dst[0], dst[1] + off, 8)
        sp = ('ld', src[0], src[1] + off, 8, 0)
        if dst == src and v == sp:
            if ('ref', sp) in s.freed:
                self.miss(w, 'still points to an object that was deleted')
            return
        null = decide(s, mkcmp('eq', sp, NULL))
        if v == NULL:
            # nothing owned: only when the source owns nothing
            if null is True or self.none(cls, src):
                return
            self.miss(w, 'is null although the source owns an object')
            return
        if v[0] != 'p' or v[1][0] != 'new':
            if null is True and same(s, v, NULL):
                return
            self.miss(w, 'is shared with another object (%s)' % say(v))
            return
        if v[1] in s.freed:
            self.miss(w, 'points to a deleted object')
            return
        for val, c in self.classes(cls, ts, src):
            t = s.copy()
            if val is not None:
                o, z = self.tags[cls][0], self.tags[cls][1]
                if not assume(t, mkcmp('eq', ('ld', src[0], src[1] + o, z, 0), C(val, z * 8))):
                    continue
            if c is None:
                continue
            n = self.size(v[1])
            if n is not None and n != self.p.types[c]['sz']:
                self.miss(w, 'owns an object of %s bytes where the tag says %s' % (n, c.split('::')[-1]))
                continue
            sub = Copy(P, t, self.tags, self.dyn)
            sub.run(c, (v[1], v[2]), (('ref', sp), 0), w + '->')
            self.bad += [x for x in sub.bad if x not in self.bad]

    def size(self, base):
        for e in self.s.events:
            if e[0] == 'new' and e[2] == base and e[3][0] == 'c':
                return e[3][1]
        return None

    def none(self, cls, src):
        if cls not in self.tags:
            return False
        o, z, m = self.tags[cls][:3]
        w = ('ld', src[0], src[1] + o, z, 0)
        for val, c in m.items():
            if c is not None and decide(self.s, mkcmp('eq', w, C(val, z * 8))) is not False:
                return False
        return True

    def classes(self, cls, ts, src):
        if cls in self.tags:
            return sorted(self.tags[cls][2].items())
        return [(None, self.dyn.get(t, t)) for t in ts]


def say(v, d=0):
    if v is None:
        return 'unknown'
    k = v[0]
    if d > 3:
        return '...'
    if k == 'c':
        return str(v[1])
    if k == 'ld':
        return '%s+%s' % (sayb(v[1], d + 1), v[2])
    if k == 'p':
        return '&%s+%s' % (sayb(v[1], d + 1), v[2])
    if k == 'op' and len(v) == 5:
        return '(%s %s %s)' % (say(v[3], d + 1), v[1], say(v[4], d + 1))
    if k == 'cmp':
        return '(%s %s %s)' % (say(v[2], d + 1), v[1], say(v[3], d + 1))
    if k == 'cast':
        return say(v[4], d)
    if k == 'call':
        return '%s(%s)' % (v[1], ', '.join(say(x, d + 1) for x in v[2]))
    if k == 'a':
        return 'argument %d' % v[1]
    if k == 'init':
        return 'content of %s+%s' % (sayb(v[1], d + 1), v[2])
    return str(k)


def sayb(b, d=0):
    if b[0] == 'arg':
        return 'object' if b[1] == 0 else 'argument %d' % b[1]
    if b[0] == 'ref':
        return '*(%s)' % say(b[1], d + 1)
    return b[0]


def tagspec(p):
    """how the two tagged pointers of the library name the class of what they own, found through the public interface"""
    r = {}
    d = 'pe_bliss::debug_info'
    for n, es, _ in p.data['en']:
        if n == d + '::advanced_info_type':
            en = dict((k, int(v)) for k, v in es)
            tag = [l for l in leaves(p, d) if l[4] == n]
            if len(tag) == 1:
                r[d] = (tag[0][1], tag[0][2], {
                    en.get('advanced_info_none'): None,
                    en.get('advanced_info_pdb_7_0'): 'pe_bliss::pdb_7_0_info', en.get('advanced_info_pdb_2_0'): 'pe_bliss::pdb_2_0_info',
                    en.get('advanced_info_misc'): 'pe_bliss::misc_debug_info', en.get('advanced_info_coff'): 'pe_bliss::coff_debug_info'})
                for v in en.values():
                    r[d][2].setdefault(v, None)
    from . import heap
    e = 'pe_bliss::resource_directory_entry'
    for f in p.named(e + '::includes_data'):
        P = heap.Paths(p, f)
        if P.complete and len(P.rets) == 1:
            v = P.rets[0][0]
            if v[0] == 'cmp' and v[1] == 'ne' and v[2][0] == 'ld' and v[2][1] == ('arg', 0) and v[3] == C(0, 8):
                r[e] = (v[2][2], 1, {0: 'pe_bliss::resource_directory', 1: 'pe_bliss::resource_data_entry'})
    return r


def access(p):
    """linkage name -> 1 private, 2 protected, 3 public"""
    r = {}
    for t in p.types.values():
        for f in t.get('fn') or ():
            r[f[1]] = f[3]
    return r


def members(p, cls):
    """member functions of a class with a body (constructors under all their linkage names)"""
    plain = ir_strip(cls)
    return [f for f in p.repo_fns() if '::' in f.name and f.name.rsplit('::', 1)[0] == plain and f.args and not f.raw.get('static')]


def ir_strip(c):
    return strip_tpl(c)


def public(acc, f):
    m = f.mangled
    if m in acc:
        return acc[m] == 3
    # complete/base object constructors and destructors are listed under a common name
    for a, b in (('C2E', 'C4E'), ('C1E', 'C4E'), ('D2E', 'D4E'), ('D1E', 'D4E'), ('D0E', 'D4E'), ('C2E', 'C1E'), ('D2E', 'D1E')):
        if a in m and m.replace(a, b) in acc:
            return acc[m.replace(a, b)] == 3
    return None
