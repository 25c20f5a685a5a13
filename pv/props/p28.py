"""P28: what a reader reports is what the image stores in the corresponding field."""
import itertools, re
from .. import ir, heap, objs, prov, bitv
from ..heap import C, mkop, mkcast, mkcmp
from ..build import Broken
from .p11 import View, base, norm as tnorm
from .p12 import where, last


# ---- expected values: small terms over the image ----
def DIR(k):
    return ('call', 'dir', k, 32, ())


def plus(a, n, *its):
    t = mkop('add', 32, a, C(n, 32))
    for i, k in its:
        t = mkop('add', 32, t, mkop('mul', 32, i, C(k, 32)))
    return t


def RD(a, off, size, kind='img'):
    return prov.img(kind, a, off, size)


def STR(a, kind='img'):
    r, n = prov.addr(a)
    return ('text', (('ptr', prov.key(r), n, kind),))


def RVA(t):
    return ('call', 'rva', t, 32, ())


ZERO = object()
EMPTY = ('empty',)


class Opt(object):
    """a value, or a constant when the image says there is none: when(conds) tells"""

    def __init__(self, t, dflt, src=None):
        self.t, self.dflt, self.src = t, dflt, src


class Reader(object):
    def __init__(self, ck, p, f, watch=()):
        self.ck, self.p, self.f = ck, p, f
        self.P = heap.Paths(p, f, own=[('arg', 0)] + [('arg', j) for j in range(2, len(f.args))], watch=('push_back', 'emplace_back', 'push_front', 'insert') + watch, ind=True)
        self.name = f.short

    def elements(self):
        """(element class, instruction, container, element base, state)"""
        for i, g, a, s in self.P.seen:
            if g is None or last(g.name) == 'insert' or len(a) < 2:
                continue
            m = re.match(r'(?:void )?std::(?:vector|list|deque)<(?:pe_bliss::)?([\w:]+)[ ,>]', g.dem.replace('unsigned int', 'unsigned'))
            if m and a[1][0] == 'p':
                yield m.group(1), i, self.P.aspt(a[0]), a[1], s


def shiftbase(t, b, o):
    if not isinstance(t, tuple):
        return t
    if len(t) == 5 and t[0] == 'ld' and t[1] == ('arg', 0):
        return ('ld', b, t[2] + o if isinstance(t[2], int) else t[2], t[3], t[4])
    if len(t) == 4 and t[0] == 'init' and t[1] == ('arg', 0):
        return ('init', b, t[2] + o, t[3])
    return tuple(shiftbase(x, b, o) for x in t)


def value(V, P, s, g, b, o):
    """what getter g reports for the object at b+o in state s: list of normalised terms"""
    out = []
    for conds, v in V.get[g]:
        out.append(ev(P, s, v, b, o))
    return out


def ev(P, s, t, b, o):
    if t is None:
        return ('any', ('none',), 64)
    if t[0] == 'byval':
        c = t[1]
        if c is not None and c[0] == 'init':
            return content(P, s, b, c[2] + o)
        return ('any', ('byval',), 64)
    if t[0] == 'p' and t[1] == ('arg', 0):
        return content(P, s, b, t[2] + o)
    if t[0] == 'ld' and t[1] == ('arg', 0) and isinstance(t[2], int):
        return prov.cells(P, s, b, t[2] + o, t[3])
    if t[0] in ('op', 'cast', 'cmp'):
        r = tuple(ev(P, s, x, b, o) if isinstance(x, tuple) else x for x in t)
        return mkcmp(*r[1:]) if r[0] == 'cmp' else mkop(*r[1:]) if r[0] == 'op' else prov.shrink(mkcast(*r[1:]))
    return t


def content(P, s, b, o):
    c = s.cont.get((b, o))
    if c is None:
        return ('init', b, o)
    if c[0] == 'of':
        return ('text', tuple(prov.norm(x) for x in c[2] if x[0] in ('ptr', 'call', 'p', 'ld') or True))
    return c


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18', 'tools/irx', 'pv/heap.py', 'pv/prov.py']
    ck.explanation = ('Every value an element or a result object reports is traced on every path to the bytes of the image it was read from; the address of these bytes '
                      '(directory, field offset, element size times iteration) must be the one the file format gives for that field.')
    ck.assumptions = ['address arithmetic does not wrap (decided where the reader checks it)']
    p = ir.load('rd')
    views = {}
    for cls in p.types:
        if cls.startswith('pe_bliss::') and '<' not in cls:
            views[cls.split('::', 1)[1]] = cls

    def view(c):
        if isinstance(views.get(c), str):
            views[c] = View(p, views[c], c)
        return views.get(c)
    n = 0
    for pat, fn in READERS:
        fs = [f for f in p.repo_fns() if re.search(pat, f.dem) and f.has_body]
        if not fs:
            ck.note('no function matches %s' % pat)
            continue
        for f in fs:
            n += 1
            fn(Ctx(ck, p, f, view))
    if n < 10:
        raise Broken('only %d readers found' % n)
    ck.count('functions', n)


class Ctx(object):
    def __init__(self, ck, p, f, view, watch=()):
        self.ck, self.p, self.f, self.view = ck, p, f, view
        self.R = Reader(ck, p, f, watch)
        self.P = self.R.P
        self.w = 8 if 'headers64' in f.dem else 4
        self.label = last(f.name) + (' (64-bit)' if self.w == 8 and '_base' in f.name else ' (32-bit)' if '_base' in f.name else '')
        self.results = {}
        if not self.P.complete:
            ck.ob(False, self.label + ': analysable', where(f), 'the reader could not be analysed')

    # an obligation per reported value; holds when every observed value is the expected one
    def put(self, cls, g, ok, loc, msg):
        k = '%s: %s::%s' % (self.label, cls, g)
        r = self.results.setdefault(k, [True, loc, ''])
        if not ok and r[0]:
            r[0], r[1], r[2] = False, loc, msg

    def done(self):
        for k in sorted(self.results):
            ok, loc, msg = self.results[k]
            self.ck.ob(ok, k, loc, msg)

    def check(self, cls, b, o, s, loc, table, what='reports'):
        V = self.view(cls)
        if V is None:
            self.put(cls, '', False, loc, 'class not found')
            return
        for g in sorted(table):
            if g not in V.get:
                self.ck.note('no reporting function %s::%s' % (cls, g))
                continue
            for got in value(V, self.P, s, g, b, o):
                self.match(cls, g, got, table[g], s, loc)

    def match(self, cls, g, got, want, s, loc):
        its = []
        prov.iters(got, its)
        alts = want if isinstance(want, list) else [want]
        for w in alts:
            if isinstance(w, Opt):
                if self.same(got, w.t, its) or self.const(got, w.dflt) and self.absent(s, w, its):
                    return self.put(cls, g, True, loc, '')
            elif self.same(got, w, its):
                return self.put(cls, g, True, loc, '')
        w = alts[0].t if isinstance(alts[0], Opt) else alts[0]
        w = w(*[('any', ('iter', x), 32) for x in range(w.__code__.co_argcount)]) if callable(w) else w
        self.put(cls, g, False, loc, 'reports %s instead of %s' % (prov.say(got), prov.say(w)))

    def same(self, got, w, its):
        if callable(w):
            k = w.__code__.co_argcount
            return any(eq(got, w(*[('any', x, 32) for x in c])) for c in itertools.permutations(its, k)) if its or not k else False
        return eq(got, w)

    # -- a list holds every stored element once
    def inner(self, b):
        c = self.f.cfg()
        c = [h for h in c.loops if b in c.loops[h]]
        return min(c, key=lambda h: len(self.f.cfg().loops[h])) if c else None

    def all(self, cls, hit, ends, skips=(), names=('push_back', 'emplace_back')):
        """hit(function, arguments): a call that appends an element. The loop around it is left only when one of ends holds, and every other
        iteration appends once unless one of skips holds"""
        P = self.P
        app = set(k for k, (i, g, a, s) in enumerate(P.seen) if g is not None and last(g.name) in names and hit(g, a))
        states = [s for v, s in P.rets] + [s for L in P.backs.values() for s in L]
        blocks = set(b for s in states for b, k in s.visit.get('log', ()) if k in app)
        heads = set(self.inner(b) for b in blocks)
        k = 'list of ' + cls
        if not heads or None in heads:
            return self.put(k, 'every element', False, where(self.f), 'no loop appends the elements')
        self.put(k, 'ends where the image says', True, where(self.f), '')
        self.put(k, 'every element', True, where(self.f), '')
        for h in heads:
            for s in states:
                e = s.visit.get(('end', h))
                if e:
                    cs = [prov.norm(x) for x in e[0]]
                    n = len([1 for b, j in e[1] if j in app and self.inner(b) == h])
                    if not any(self.cond(x, w, n) for x in cs for w in ends):
                        self.put(k, 'ends where the image says', False, where(self.f), 'the loop ends when ' + ' and '.join(prov.say(x) for x in cs[-3:]))
            for s in P.backs.get(h, ()):
                a, b = s.visit[('at', h)][:2]
                n = len([1 for b, j in s.visit.get('log', ())[b:] if j in app and self.inner(b) == h])
                if n == 1:
                    continue
                cs = [prov.norm(x) for x in s.conds[a:]]
                if n == 0 and any(all(any(self.cond(x, w, 0) for x in cs) for w in W) for W in skips):
                    continue
                self.put(k, 'every element', False, where(self.f), 'an element is %s when %s' % ('skipped' if not n else 'reported twice', ' and '.join(prov.say(x) for x in cs[-3:])))

    def cond(self, x, w, done):
        if x[0] != 'cmp':
            return w[0] == 'flag' and w[1](x)
        if w[0] == 'flag':
            return w[1](x)
        if w[0] == 'zero':
            v = None
            if x[1] == 'eq':
                v = x[2] if x[3][0] == 'c' and x[3][1] == 0 else x[3] if x[2][0] == 'c' and x[2][1] == 0 else None
            elif x[1] == 'ult' and x[3][0] == 'c' and x[3][1] == 1:
                v = x[2]
            return v is not None and self.same(v, w[1], prov.iters(v))
        d = {'uge': (2, 3, 0), 'sge': (2, 3, 0), 'ule': (3, 2, 0), 'sle': (3, 2, 0), 'ugt': (2, 3, 1), 'sgt': (2, 3, 1), 'ult': (3, 2, 1), 'slt': (3, 2, 1), 'eq': (2, 3, 0)}.get(x[1])
        if d is None:
            return False
        if w[0] == 'next' and not done:
            return False
        its = prov.iters(x)
        wd = max(heap.bits(x[2]), 1)
        for c in itertools.permutations(its, w[1].__code__.co_argcount):
            for r in range(2 if done else 1):
                a, b = w[1](*[mkop('add', 32, ('any', y, 32), C(r, 32)) for y in c])
                for p, q in ((d[0], d[1]),) + (((d[1], d[0]),) if x[1] == 'eq' else ()):
                    l1, n1 = self.poly(x[p], x[q], wd)
                    l2, n2 = self.poly(a, b, wd)
                    if l1 == l2 and (n1 - d[2] - n2) & ((1 << wd) - 1) == 0:
                        return True
                if agree(x, prov.norm(a), prov.norm(b)):
                    return True
        return False

    def poly(self, a, b, w):
        r, n = heap.lin(prov.norm(a), w)
        r, m = heap.lin(prov.norm(b), w, r, -1)
        m += n
        return dict((k if k[:1] != ('any',) else k[1], v) for k, v in r.items()), m & ((1 << w) - 1)

    def const(self, got, d):
        return got == d or got[0] == 'c' and isinstance(d, int) and got[1] == d

    def absent(self, s, w, its):
        """the conditions of the path say that the source is absent"""
        if w.src is None:
            return True
        for c in s.conds:
            c = prov.norm(c)
            if c[0] == 'cmp' and c[1] == 'eq' and c[3][0] == 'c' and c[3][1] == 0 and self.same(c[2], w.src, prov.iters(c[2])):
                return True
            if c[0] == 'cmp' and isinstance(c[2], tuple) and 'typeid' in repr(c[2:]):
                return True
        return False


def eq(got, want):
    if got == want:
        return True
    if want[0] == 'text':
        return got[0] == 'text' and bool(got[1]) and got[1][:1] == want[1][:1]
    if want[0] in ('empty',) or got[0] in ('text', 'empty', 'init', 'mut', 'ptr'):
        return got == want
    return prov.equal(got, want)


def agree(x, a, b):
    """x is a >= b in another arithmetic form: compared over a grid of small even sizes and counts (both are the same function of one stored
    number and one iteration count)"""
    at = leaves(x, [])
    if len(at) != 2 or sorted(map(repr, at)) != sorted(map(repr, leaves(b, leaves(a, [])))):
        return False
    n = [y for y in at if y[0] == 'ld']
    i = [y for y in at if y[0] == 'any']
    if len(n) != 1 or len(i) != 1:
        return False
    try:
        for S in range(0, 80, 2):
            for k in range(0, 44):
                m = {repr(n[0]): S, repr(i[0]): k}
                if bool(calc(x, m)) != (calc(a, m) >= calc(b, m)):
                    return False
    except (KeyError, ZeroDivisionError):
        return False
    return True


def leaves(t, r):
    if t[0] in ('op', 'cast', 'cmp', 'sel'):
        for y in t[1:]:
            if isinstance(y, tuple):
                leaves(y, r)
    elif t[0] != 'c' and t not in r:
        r.append(t)
    return r


def calc(t, m):
    if t[0] == 'c':
        return t[1]
    if repr(t) in m:
        return m[repr(t)]
    if t[0] == 'cast':
        v = calc(t[4], m)
        if t[1] == 'sext' and v >> (t[2] - 1):
            v |= (1 << t[3]) - (1 << t[2])
        return v & ((1 << t[3]) - 1)
    if t[0] == 'op':
        a, b, w = calc(t[3], m), calc(t[4], m), t[2]
        f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: a // b, 'urem': lambda: a % b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: a >> b}
        return f[t[1]]() & ((1 << w) - 1)
    if t[0] == 'cmp':
        a, b = calc(t[2], m), calc(t[3], m)
        return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[t[1]]
    raise KeyError(t[0])


# ---- the readers ----
def exports(c):
    E = DIR(0)
    F = {'get_rva': lambda i: RD(plus(RD(E, 28, 4), 0, (i, 4)), 0, 4),
         'get_ordinal': lambda i: mkop('add', 16, mkcast('trunc', 32, 16, i), RD(E, 16, 2)),
         'get_name': [lambda j: STR(RD(plus(RD(E, 32, 4), 0, (j, 4)), 0, 4)), EMPTY],
         'get_name_ordinal': [lambda j: RD(plus(RD(E, 36, 4), 0, (j, 2)), 0, 2), C(0, 16)],
         'get_forwarded_name': [lambda i: STR(RD(plus(RD(E, 28, 4), 0, (i, 4)), 0, 4)), EMPTY]}
    for cls, i, cont, e, s in c.R.elements():
        if cls == 'exported_function':
            c.check(cls, e[1], e[2], s, i.loc, F)
            fw(c, cls, e, s, i, E)
    I = {'get_characteristics': RD(E, 0, 4), 'get_timestamp': RD(E, 4, 4), 'get_major_version': RD(E, 8, 2), 'get_minor_version': RD(E, 10, 2),
         'get_name': STR(RD(E, 12, 4)), 'get_ordinal_base': RD(E, 16, 4), 'get_number_of_functions': RD(E, 20, 4), 'get_number_of_names': RD(E, 24, 4),
         'get_rva_of_functions': RD(E, 28, 4), 'get_rva_of_names': RD(E, 32, 4), 'get_rva_of_name_ordinals': RD(E, 36, 4)}
    c.all('exported_function', of('exported_function'), [('ge', lambda i: (i, RD(E, 20, 4)))], [[('zero', lambda i: RD(plus(RD(E, 28, 4), 0, (i, 4)), 0, 4))]])
    k = [j for j, t in enumerate(c.f.params) if 'export_info' in t]
    if k:
        b = ('arg', k[0] + 1)
        for v, s in c.P.rets:
            if any(x[0] == b for x in s.mem):
                c.check('export_info', b, 0, s, where(c.f), I)
    c.done()


def fw(c, cls, e, s, i, E):
    """a function is reported as forwarded when its address lies in the directory, and named when one of the names is stored for it"""
    V = c.view(cls)
    cs = [prov.norm(x) for x in s.conds]
    rva = lambda k: RD(plus(RD(E, 28, 4), 0, (k, 4)), 0, 4)
    end = lambda: mkop('add', 32, DIR(0), ('call', 'dirsize', 0, 32, ()))
    ge = lambda a: any(c.cond(x, ('ge', a), 0) and x[1] != 'eq' for x in cs)
    inside = any(ge(lambda k: (rva(k), plus(DIR(0), n))) for n in (0, 4, 40)) and ge(lambda k: (end(), plus(rva(k), 1)))
    outside = any(ge(lambda k: (plus(DIR(0), n), plus(rva(k), 1))) for n in (0, 4, 40)) or ge(lambda k: (rva(k), end()))
    for got in value(V, c.P, s, 'get_forwarded_name', e[1], e[2]):
        c.put(cls, 'forwarded exactly when the address lies in the directory', outside if got == EMPTY else inside, i.loc,
              'a function %s as forwarded when %s' % ('is not reported' if got == EMPTY else 'is reported', ' and '.join(prov.say(x) for x in cs[-2:])))
    for got in value(V, c.P, s, 'get_name', e[1], e[2]):
        if got == EMPTY:
            ok = ge(lambda j: (j, RD(E, 24, 4)))
        else:
            ok = any(x[1] == 'eq' and c.cond(x, ('ge', lambda k, j: (k, mkcast('zext', 16, 32, RD(plus(RD(E, 36, 4), 0, (j, 2)), 0, 2)))), 0) for x in cs if x[0] == 'cmp')
        c.put(cls, 'named exactly when a name is stored for it', ok, i.loc, 'a function %s a name when %s' % ('has no' if got == EMPTY else 'gets', ' and '.join(prov.say(x) for x in cs[-2:])))


def imports(c):
    w = c.w
    D = lambda i: plus(DIR(1), 0, (i, 20))
    L = {'get_name': lambda i: STR(RD(D(i), 12, 4)), 'get_timestamp': lambda i: RD(D(i), 4, 4), 'get_rva_to_iat': lambda i: RD(D(i), 16, 4),
         'get_rva_to_original_iat': lambda i: RD(D(i), 0, 4)}

    def T(i, j, o):
        return RD(plus(RD(D(i), o, 4), 0, (j, w)), 0, w)

    def both(fn):
        return [lambda i, j: fn(T(i, j, 0)), lambda i, j: fn(T(i, j, 16))]
    F = {'get_iat_va': lambda i, j: T(i, j, 16),
         'get_name': both(lambda t: STR(plus(low(t), 2))) + [EMPTY],
         'get_hint': both(lambda t: RD(low(t), 0, 2)) + [C(0, 16)],
         'get_ordinal': both(lambda t: ('ld', t[1], t[2], 2, 0)) + [C(0, 16)]}
    lookup = set()
    for cls, i, cont, e, s in c.R.elements():
        if cls == 'import_library':
            c.check(cls, e[1], e[2], s, i.loc, L)
        elif cls == 'imported_function':
            c.check(cls, e[1], e[2], s, i.loc, F)
            lk(c, cls, e, s, i, w, D, T)
    c.all('import_library', of('import_library'), [('zero', lambda i: RD(D(i), 12, 4))])
    c.all('imported_function', of('imported_function'), [('zero', lambda i, j: T(i, j, 16)), ('zero', lambda i, j: T(i, j, 0))])
    c.done()


def lk(c, cls, e, s, i, w, D, T):
    """names come from the original thunks when there are any, ordinals are taken when the top bit is set"""
    V = c.view(cls)
    zero = [prov.norm(x) for x in s.conds]
    named = value(V, c.P, s, 'get_name', e[1], e[2])[0]
    orig0 = any(x[0] == 'cmp' and x[1] == 'eq' and x[3] == C(0, 32) and c.same(x[2], lambda i: RD(D(i), 0, 4), prov.iters(x[2])) for x in zero)
    src = named if named[0] == 'text' else value(V, c.P, s, 'get_ordinal', e[1], e[2])[0]
    its = prov.iters(src)
    o = 16 if orig0 else 0
    want = (lambda a, b: STR(plus(low(T(a, b, o)), 2))) if named[0] == 'text' else (lambda a, b: ('ld', T(a, b, o)[1], T(a, b, o)[2], 2, 0))
    c.put(cls, 'lookup table', c.same(src, want, its), i.loc, 'the name or ordinal is taken from %s' % prov.say(src))
    hint = value(V, c.P, s, 'get_hint', e[1], e[2])[0]
    if named[0] == 'text':
        c.put(cls, 'hint of a named import', c.same(hint, lambda a, b: RD(low(T(a, b, o)), 0, 2), prov.iters(hint)), i.loc, 'the hint is taken from %s' % prov.say(hint))
    ok = False
    for q in itertools.permutations(prov.iters(src), 2):
        q = [('any', y, 32) for y in q]
        top = bitv.bv(T(q[0], q[1], o))[8 * w - 1]
        ok = ok or any(istest(x, top) == (named[0] != 'text') for x in zero)
    c.put(cls, 'import by name', ok, i.loc, 'the choice between name and ordinal does not follow the top bit of the lookup entry')


def istest(x, bit):
    """True when x holds exactly if the bit is set, False when exactly if it is clear, None otherwise"""
    if x[0] != 'cmp' or not isinstance(x[2], tuple):
        return None
    if x[1] in ('slt', 'sge') and x[3][0] == 'c' and x[3][1] == 0:
        try:
            return x[1] == 'slt' if bitv.bv(x[2])[-1] == bit else None
        except Exception:
            return None
    if x[1] not in ('eq', 'ne') or x[3][0] != 'c':
        return None
    try:
        v = bitv.bv(x[2])
    except Exception:
        return None
    k = [j for j, y in enumerate(v) if y == bit]
    if len(k) != 1 or any(y not in (0, 1) for y in v if y != bit):
        return None
    c = x[3][1]
    if any(y == 1 and not c >> j & 1 or y == 0 and c >> j & 1 for j, y in enumerate(v)):
        return None
    return (x[1] == 'eq') == bool(c >> k[0] & 1)


def low(t):
    return ('ld', t[1], t[2], 4, 0)


def recstart(c, want_start, want_next):
    """the course of a position that moves by amounts read from the image"""
    found = None
    for k, (es, bs) in sorted(c.P.recs.items(), key=repr):
        e = [prov.norm(x) for x in es]
        if all(prov.equal(x, want_start) for x in e):
            it = ('any', ('rec',) + k, 32)
            ok = []
            for x in bs:
                x = prov.norm(x)
                js = [y for y in prov.iters(x) if ('any', y, 32) != it]
                n = want_next.__code__.co_argcount - 1
                ok.append(any(prov.equal(x, w) or prov.addr(x) == prov.addr(w) for w in (want_next(it, *[('any', y, 32) for y in q]) for q in itertools.permutations(js, n))))
            found = it
            if all(ok):
                return it, True, bs
    return found, False, ()


def unset(c, k):
    a = ('a', k, 1)
    return lambda x: x in (mkop('xor', 1, a, C(1, 1)), ('cmp', 'eq', a, C(0, 1)), ('cmp', 'ne', a, C(1, 1)))


def relocs(c):
    E = {'get_rva': lambda i: RD(i, 0, 4)}
    F = {'get_rva': lambda i, j: mkop('and', 16, RD(plus(i, 8, (j, 2)), 0, 2), C(0xfff, 16)),
         'get_type': lambda i, j: mkop('lshr', 16, RD(plus(i, 8, (j, 2)), 0, 2), C(12, 16))}
    for cls, i, cont, e, s in c.R.elements():
        if cls == 'relocation_table':
            c.check(cls, e[1], e[2], s, i.loc, E)
        elif cls == 'relocation_entry':
            c.check(cls, e[1], e[2], s, i.loc, F)
    it, ok, bs = recstart(c, DIR(5), lambda x: mkop('add', 32, x, RD(x, 4, 4)))
    c.put('relocation_table', 'block position', it is not None and ok, where(c.f), 'the blocks are not walked from the start of the directory by their stored size')
    if it is not None:
        size = ('call', 'dirsize', 5, 32, ())
        done, ok, bs = recstart(c, C(0, 32), lambda x: mkop('add', 32, x, RD(it, 4, 4)))
        ends = [('zero', lambda: RD(it, 4, 4))]
        if done is not None and ok:
            ends += [('ge', lambda: (done, size)), ('next', lambda: (mkop('add', 32, done, RD(it, 4, 4)), size))]
        c.all('relocation_table', of('relocation_table'), ends)
    c.all('relocation_entry', of('relocation_entry'), [('ge', lambda i, j: (plus(C(8, 32), 0, (j, 2)), RD(i, 4, 4)))],
          [[('flag', unset(c, 2)), ('zero', F['get_type'])]])
    c.done()


def tls(c):
    w = c.w
    E = DIR(9)
    fld = lambda k: RD(E, k * w, w)
    I = {'get_raw_data_start_rva': Opt(RVA(fld(0)), 0, fld(0)), 'get_raw_data_end_rva': Opt(RVA(fld(1)), 0, fld(1)),
         'get_index_rva': Opt(RVA(fld(2)), 0, fld(2)), 'get_callbacks_rva': Opt(RVA(fld(3)), 0, fld(3)),
         'get_size_of_zero_fill': RD(E, 4 * w, 4), 'get_characteristics': RD(E, 4 * w + 4, 4)}
    for v, s in c.P.rets:
        c.check('tls_info', ('arg', 0), 0, s, where(c.f), I)
    raw(c, fld(0), fld(1))
    one(c, 'tls_info', 'get_tls_callbacks', lambda i: RVA(RD(plus(fld(3), 0, (i, w)), 0, w, 'va')),
        [('zero', lambda i: RD(plus(fld(3), 0, (i, w)), 0, w, 'va'))])
    c.done()


def raw(c, a, b):
    """the raw data is what lies between the two addresses"""
    V = c.view('tls_info')
    for v, s in c.P.rets:
        for got in value(V, c.P, s, 'get_raw_data', ('arg', 0), 0):
            cs = [prov.norm(x) for x in s.conds]
            if got == EMPTY:
                ok = any(c.cond(x, ('zero', lambda: a), 0) or c.cond(x, ('ge', lambda: (a, b)), 0) and x[1] == 'eq' or 'typeid' in repr(x) for x in cs)
                c.put('tls_info', 'get_raw_data', ok, where(c.f), 'nothing is reported although the image stores raw data')
                continue
            ok = got[0] == 'text' and len(got[1]) >= 2 and prov.addr(got[1][0]) == prov.addr(('ptr', prov.key(prov.addr(a)[0]), prov.addr(a)[1], 'va'))
            if ok:
                ok = c.poly(got[1][1], C(0, 32), 32) in (c.poly(b, a, 32), c.poly(low(b), low(a), 32))
            c.put('tls_info', 'get_raw_data', ok, where(c.f), 'the raw data reported is not what lies between the stored addresses')


def one(c, cls, g, want, ends):
    """elements appended to the plain list getter g of the result reports"""
    V = c.view(cls)
    off = [v[2] for _, v in V.get[g] if v[0] == 'p' and v[1] == ('arg', 0)]
    hit = False
    for i, f, a, s in c.P.seen:
        if f is None or last(f.name) not in ('push_back', 'emplace_back') or len(a) < 2:
            continue
        d = c.P.aspt(a[0])
        if d[1] == ('arg', 0) and d[2] in off and a[1][0] == 'p':
            m = re.search(r'<(unsigned )?(int|short|long|char)', f.dem)
            z = {'int': 4, 'short': 2, 'long': 8, 'char': 1}[m.group(2)] if m else 4
            got = prov.norm(c.P.cell(s, a[1][1], a[1][2], z))
            hit = True
            c.match(cls, g, got, want, s, i.loc)
    if not hit:
        c.put(cls, g, False, where(c.f), 'nothing is ever appended to the list')

    def mine(f, a):
        d = c.P.aspt(a[0]) if a else None
        return d is not None and len(a) > 1 and d[1] == ('arg', 0) and d[2] in off
    c.all(cls + '::' + g, mine, ends)


def config(c):
    w = c.w
    E = DIR(10)
    o = lambda k32, k64: k64 if w == 8 else k32
    I = {'get_time_stamp': RD(E, 4, 4), 'get_major_version': RD(E, 8, 2), 'get_minor_version': RD(E, 10, 2), 'get_global_flags_clear': RD(E, 12, 4),
         'get_global_flags_set': RD(E, 16, 4), 'get_critical_section_default_timeout': RD(E, 20, 4),
         'get_decommit_free_block_threshold': RD(E, 24, w), 'get_decommit_total_free_threshold': RD(E, o(28, 32), w),
         'get_lock_prefix_table_va': RD(E, o(32, 40), w), 'get_max_allocation_size': RD(E, o(36, 48), w), 'get_virtual_memory_threshold': RD(E, o(40, 56), w),
         'get_process_heap_flags': RD(E, o(44, 72), 4), 'get_process_affinity_mask': RD(E, o(48, 64), w), 'get_service_pack_version': RD(E, o(52, 76), 2),
         'get_edit_list_va': RD(E, o(56, 80), w), 'get_security_cookie_va': RD(E, o(60, 88), w), 'get_se_handler_table_va': RD(E, o(64, 96), w),
         'get_se_handler_count': RD(E, o(68, 104), w)}
    for v, s in c.P.rets:
        c.check('image_config_info', ('arg', 0), 0, s, where(c.f), I)
    one(c, 'image_config_info', 'get_se_handler_rvas', lambda i: RD(plus(RD(E, o(64, 96), w), 0, (i, 4)), 0, 4, 'va'),
        [('ge', lambda i: (i, RD(E, o(68, 104), w)))])
    one(c, 'image_config_info', 'get_lock_prefix_rvas', lambda i: RVA(RD(plus(RD(E, o(32, 40), w), 0, (i, w)), 0, w, 'va')),
        [('zero', lambda i: RD(plus(RD(E, o(32, 40), w), 0, (i, w)), 0, w, 'va'))])
    c.done()


def dotnet(c):
    E = DIR(14)
    I = {'get_major_runtime_version': RD(E, 4, 2), 'get_minor_runtime_version': RD(E, 6, 2), 'get_rva_of_metadata': RD(E, 8, 4), 'get_size_of_metadata': RD(E, 12, 4),
         'get_flags': RD(E, 16, 4), 'get_entry_point_rva_or_token': RD(E, 20, 4), 'get_rva_of_resources': RD(E, 24, 4), 'get_size_of_resources': RD(E, 28, 4),
         'get_rva_of_strong_name_signature': RD(E, 32, 4), 'get_size_of_strong_name_signature': RD(E, 36, 4), 'get_rva_of_code_manager_table': RD(E, 40, 4),
         'get_size_of_code_manager_table': RD(E, 44, 4), 'get_rva_of_vtable_fixups': RD(E, 48, 4), 'get_size_of_vtable_fixups': RD(E, 52, 4),
         'get_rva_of_export_address_table_jumps': RD(E, 56, 4), 'get_size_of_export_address_table_jumps': RD(E, 60, 4),
         'get_rva_of_managed_native_header': RD(E, 64, 4), 'get_size_of_managed_native_header': RD(E, 68, 4)}
    for v, s in c.P.rets:
        c.check('basic_dotnet_info', ('arg', 0), 0, s, where(c.f), I)
    c.done()


def excs(c):
    R = lambda i: plus(DIR(3), 0, (i, 12))
    U = lambda i: RD(R(i), 8, 4)
    bits = lambda i, k, m, sh: mkop('and', 8, mkop('lshr', 8, RD(U(i), k, 1), C(sh, 8)), C(m, 8))
    F = {'get_begin_address': lambda i: RD(R(i), 0, 4), 'get_end_address': lambda i: RD(R(i), 4, 4), 'get_unwind_info_address': lambda i: RD(R(i), 8, 4),
         'get_unwind_info_version': lambda i: bits(i, 0, 7, 0), 'get_flags': lambda i: bits(i, 0, 31, 3), 'get_size_of_prolog': lambda i: RD(U(i), 1, 1),
         'get_number_of_unwind_slots': lambda i: RD(U(i), 2, 1), 'get_frame_pointer_register_number': lambda i: bits(i, 3, 15, 0),
         'get_scaled_rsp_offset': lambda i: bits(i, 3, 15, 4)}
    elems(c, 'exception_entry', F, [('zero', lambda i: RD(R(i), 0, 4))])


def of(cls):
    return lambda g, a: re.match(r'(?:void )?std::(?:vector|list|deque)<(?:pe_bliss::)?%s[ ,>]' % cls, g.dem) is not None


def elems(c, name, F, ends):
    hit = False
    for cls, i, cont, e, s in c.R.elements():
        if cls == name:
            hit = True
            c.check(cls, e[1], e[2], s, i.loc, F)
    if not hit:
        c.put(name, '', False, where(c.f), 'no element is ever added')
    c.all(name, of(name), ends)
    c.done()


def bound(c):
    E = DIR(11)
    M = {'get_timestamp': lambda i: RD(plus(E, 0, (i, 1)), 0, 4), 'get_module_name': lambda i: STR(plus(E, 0, (RD(plus(E, 0, (i, 1)), 4, 2), 1)))}
    R = {'get_timestamp': lambda i, j: RD(plus(E, 8, (i, 1), (j, 8)), 0, 4),
         'get_module_name': lambda i, j: STR(plus(E, 0, (RD(plus(E, 8, (i, 1), (j, 8)), 4, 2), 1)))}
    for cls, i, cont, e, s in c.R.elements():
        if cls == 'bound_import':
            c.check(cls, e[1], e[2], s, i.loc, M)
        elif cls == 'bound_import_ref':
            c.check(cls, e[1], e[2], s, i.loc, R)
    refs = lambda x: mkcast('zext', 16, 32, RD(plus(E, 0, (x, 1)), 6, 2))
    it, ok, bs = recstart(c, C(0, 32), lambda x, j: plus(x, 8, (j, 8)))
    c.put('bound_import', 'position', it is not None and ok, where(c.f), 'the descriptors are not walked from the start of the directory past their references')
    c.all('bound_import', of('bound_import'), [('zero', lambda i: RD(plus(E, 0, (i, 1)), 4, 2))])
    c.all('bound_import_ref', of('bound_import_ref'), [('ge', lambda i, j: (j, refs(i)))])
    c.done()


def debug(c):
    D = lambda i: plus(DIR(6), 0, (i, 28))
    F = {'get_characteristics': lambda i: RD(D(i), 0, 4), 'get_time_stamp': lambda i: RD(D(i), 4, 4), 'get_major_version': lambda i: RD(D(i), 8, 2),
         'get_minor_version': lambda i: RD(D(i), 10, 2), 'get_type_raw': lambda i: RD(D(i), 12, 4), 'get_size_of_data': lambda i: RD(D(i), 16, 4),
         'get_rva_of_raw_data': lambda i: RD(D(i), 20, 4), 'get_pointer_to_raw_data': lambda i: RD(D(i), 24, 4)}
    elems(c, 'debug_info', F, [('zero', lambda i: RD(D(i), 24, 4)), ('ge', lambda i: (plus(C(0, 32), 0, (i, 28)), ('call', 'dirsize', 6, 32, ())))])


READERS = [(r'::get_exported_functions\(pe_bliss::pe_base const&, pe_bliss::export_info\*\)', exports),
           (r'get_imported_functions_base<', imports),
           (r'::get_relocations\(pe_bliss::pe_base', relocs),
           (r'get_tls_info_base<', tls),
           (r'get_image_config_base<', config),
           (r'::get_basic_dotnet_info\(pe_bliss::pe_base', dotnet),
           (r'::get_exception_directory_data\(', excs),
           (r'::get_bound_import_module_list\(', bound),
           (r'::get_debug_information\(', debug)]
