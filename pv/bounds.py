"""Bounds obligations: every access to file-derived or output bytes must lie inside its buffer."""
from . import lin
from .absint import Engine, C, off_add, tbits, MAXB, NOFF
from .models import base_models, sver, slen, elsz, cstrlen


class Ob(object):
    __slots__ = ('fn', 'ins', 'kind', 'ok', 'why', 'base', 'rw')

    def __init__(self, fn, ins, kind, ok, why, base, rw):
        self.fn, self.ins, self.kind, self.ok, self.why, self.base, self.rw = fn, ins, kind, ok, why, base, rw


class Hooks(object):
    def access(self, e, st, i, base, off, n, kind): pass
    def stored(self, e, st, i, base, off, sz, v): pass
    def copied(self, e, st, i, db, do, sb, so, n): pass
    def call(self, e, st, i, fn, args): pass
    def after_call(self, e, st, i, fn, args, res): pass
    def index(self, e, st, i, fn, ln, idx, what): pass
    def cstr(self, e, st, i, p, es): pass
    def division(self, e, st, i, a, b): pass
    def ret(self, e, st, i): pass


class Bounds(Hooks):
    def __init__(self, want=None):
        self.obs = []
        self.skipped = []
        self.want = want

    def add(self, e, i, kind, ok, why, base, rw):
        self.obs.append(Ob(e.fn, i, kind, ok, why, base, rw))

    def check(self, e, st, base, off, n):
        """-> (ok, why) or None when the object is not a byte buffer of interest"""
        c = e.ctx(st.node)
        if base[0] == 'str':
            o = e.lzoff(c, off)
            nn = e.lz(c, n)
            ln = lin.scale(e.lz(c, slen(base[1])), base[2])
            if not c.entails(lin.scale(o, -1)):
                return False, 'offset may be negative'
            ok = c.entails(lin.add(lin.add(o, nn), ln, 1, -1))
            if not ok and c.entails(nn):
                ok = True
            return ok, '' if ok else 'access may exceed the string length'
        if base[0] == 'sec':
            o = e.lzoff(c, off)
            nn = e.lz(c, n)
            end = lin.add(o, nn)
            if c.entails(nn):
                return True, ''
            for x in list(c.ranges):
                if isinstance(x, tuple) and x[0] == 'secend' and x[2] == base[1]:
                    a, T = x[3], x[4]
                    if T != base[3] or x[5] != base[4]:
                        continue
                    if a == base[2] and c.entails(lin.add(end, {x: 1}, 1, -1)):
                        return True, ''
                    # END(a) - x' == S for some S >= 1
                    for s in list(c.ranges):
                        if isinstance(s, tuple) and s[0] == 'call' and s[2] == 'seclen' and s[3] == x[2] and s[4] == a and s[6] == T and s[7] == x[5]:
                            xin = e.lz(c, s[5])
                            S = {s: 1}
                            if a[0] == 'at' and base[2][0] == 'at':
                                av = e.lz(c, a[1])
                                same = base[2] == a or c.entails(lin.add(xin, o, 1, -1)) or c.entails(lin.add(av, o, 1, -1))
                            else:
                                same = base[2] == a
                            if not same:
                                continue
                            if c.entails(lin.add(lin.const(1), S, 1, -1)):
                                if c.entails(lin.add(end, lin.add(xin, S), 1, -1)):
                                    return True, ''
                            else:
                                # off+n <= x'+S with off >= x': S == 0 leaves no byte to access
                                if c.entails(lin.add(end, lin.add(xin, S), 1, -1)) and c.entails(lin.add(xin, o, 1, -1)):
                                    return True, ''
            return False, 'access to section data is not covered by a preceding length check'
        if base[0] == 'alloca':
            i = e.fn.defs.get(base[2])
            if i is None or i.get('sz', -1) < 0:
                return None
            if not off[1] and n[0] == 'c':
                if 0 <= off[0] and off[0] + n[1] <= i.get('sz'):
                    return None
            o = e.lzoff(c, off)
            nn = e.lz(c, n)
            ok = c.entails(lin.scale(o, -1)) and c.entails(lin.add(lin.add(o, nn), lin.const(-i.get('sz'))))
            return ok, '' if ok else 'access may exceed a local object of %d bytes' % i.get('sz')
        if base[0] == 'heap':
            o = e.lzoff(c, off)
            nn = e.lz(c, n)
            ok = c.entails(lin.scale(o, -1)) and c.entails(lin.add(lin.add(o, nn), e.lz(c, base[2]), 1, -1))
            return ok, '' if ok else 'access may exceed the allocation'
        return None

    def index(self, e, st, i, fn, ln, idx, what):
        if not e.final:
            return
        if what == 'string':
            return          # judged at the load or store through the reference
        c = e.ctx(st.node)
        d = lin.add(e.lz(c, idx), e.lz(c, ln), 1, -1)
        ok = c.entails(d if what == 'substr' else lin.add(d, lin.const(1)))
        if idx[0] == 'op' and idx[2] == 'sub' and ok:
            ok = c.entails(lin.add(lin.const(1), e.lz(c, ln), 1, -1)) if idx[3] == ln else ok
        kind = 'throwing-index' if what in ('at', 'vector-at', 'substr') else 'index'
        self.add(e, i, kind, ok, '' if ok else 'element access (%s) is not proven to be in range' % what, ('container',), what)

    def access(self, e, st, i, base, off, n, kind):
        if not e.final:
            return
        r = self.check(e, st, base, off, n)
        if r is None:
            self.skipped.append((e.fn, i, base, kind, off, n))
            return
        self.add(e, i, 'access', r[0], r[1], base, kind)


    def cstr(self, e, st, i, p, es):
        """a NUL-terminated read of characters of es bytes from p"""
        if not e.final:
            return
        base, off = e.asptr(p)
        c = e.ctx(st.node)
        if base[0] == 'str' and base[2] == es:
            o = e.lzoff(c, off)
            ok = c.entails(lin.add(o, lin.scale(e.lz(c, slen(base[1])), es), 1, -1))
            self.add(e, i, 'cstr', ok, '' if ok else 'start of a C string may lie outside its buffer', base, 'cstr')
            return
        if base[0] == 'alloca' and not off[1]:
            d = e.fn.defs.get(base[2])
            for (k2, o2), (s2, t2) in st.mem.get(base, {}).items():
                if k2 == 'v' and o2 >= off[0] and (t2 == ('zero',) or t2[0] == 'c' and t2[1] == 0) and s2 >= es and o2 + s2 <= d.get('sz', 0):
                    self.add(e, i, 'cstr', True, '', base, 'cstr')
                    return
        if base[0] in ('str', 'sec', 'heap', 'alloca'):
            k = cstrlen(p, es)
            r = self.check(e, st, base, off, e.mkop('mul', 64, e.mkop('add', 64, k, C(1, 64)), C(es, 64)))
            if r is None:
                return
            self.add(e, i, 'cstr', r[0], '' if r[0] else 'C string is read without a preceding null-termination check over the bytes that remain', base, 'cstr')
        else:
            self.skipped.append((e.fn, i, base, 'cstr', off, C(1, 64)))


def run(prog, fn, models=None, hooks=None, opts=None):
    h = hooks or Bounds()
    e = Engine(prog, fn, models or base_models(), h, opts or {})
    e.run()
    return h, e
