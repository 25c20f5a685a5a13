"""Every loop ends: each one has a measure that strictly grows or shrinks, and every recursion descends."""
import re
from .. import ir, bounds
from ..absint import C, subst, tbits
from ..build import Broken
from ..check import pmap
from . import _bounds
from .p12 import floc
from .p07 import avoids, diff, leaves, norm, succs

_state = {}

# lookups by relative address: they raise an exception outside of the headers and sections
LOOKUP = ('pe_base::section_data_from_rva', 'pe_base::section_data_length_from_rva', 'pe_base::section_from_rva',
          'pe_base::section_data_from_va', 'pe_base::section_data_length_from_va', 'pe_base::section_from_va')


def name(p, i):
    g = p.fns.get(i.callee)
    return g.dem if g is not None else (i.callee or '')


def short(p, i):
    g = p.fns.get(i.callee)
    return g.short if g is not None else ''


def fixed(t, body):
    """a term without anything that is computed inside the loop"""
    if not isinstance(t, tuple):
        return True
    if t and t[0] in ('phi', 'mphi') and len(t) > 2 and t[2] in body:
        return False
    if t and t[0] == 'sym' and len(t) > 3 and t[2] == 'ins' and t[3] in body:
        return False
    if t and t[0] == 'v' and len(t) == 3 and isinstance(t[1], int) and t[1] in body:
        return False
    if t and t[0] == 'sym' and len(t) > 2 and t[2] == 'lost' and any(isinstance(x, int) and x in body for x in t[3:]):
        return False
    return all(fixed(x, body) for x in t)


class Loop(object):
    def __init__(self, p, e, hd):
        self.p, self.e, self.hd, self.body = p, e, hd, e.cfg.loops[hd]
        self.back = [(b, e.out[(b, hd)]) for b in e.cfg.pred[hd] if b in self.body and (b, hd) in e.out]
        ls = e.loopsub.get(hd)
        self.vars = {}
        if ls is not None:
            for t in ls[0]:
                self.vars[t] = [subst(t, m) for m in ls[1]]
        self.split()

    def split(self):
        """each way back to the head with the values the numbers have on it"""
        back, vs = [], dict((t, []) for t in self.vars)
        for k, (b, st) in enumerate(self.back):
            now = [(st, {})]
            for t in self.vars:
                v = self.vars[t][k]
                nxt = []
                for s, m in now:
                    ls = leaves(self.e, v, s) if v[0] == 'phi' and v[2] in self.body and v[2] != self.hd else [(v, s)]
                    for w, s2 in ls or [(v, s)]:
                        nxt.append((s2, dict(m)))
                        nxt[-1][1][t] = w
                now = nxt if len(nxt) <= 16 else [(s, dict(m)) for s, m in now]
                for s, m in now:
                    m.setdefault(t, v)
            for s, m in now:
                back.append((b, s))
                for t in vs:
                    vs[t].append(m[t])
        self.back, self.vars = back, vs
        self.subs = [dict((t, vs[t][k]) for t in vs) for k in range(len(back))]

    def loc(self):
        for b in [self.hd] + sorted(self.body):
            for i in self.e.fn.blocks[b]:
                if i.loc and not i.loc.endswith(':0'):
                    return i.loc
        return '?'

    def evades(self, places):
        """some iteration passes none of these instructions"""
        e = self.e
        todo, seen = [self.hd], set()
        stop = set(b for b, k in places)
        while todo:
            b = todo.pop()
            if b in stop:
                continue
            for s in succs(e, b):
                if s == self.hd:
                    return True
                if s in self.body and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return False

    def facts(self, st):
        return list(st.node.facts())

    def why(self):
        for f in (self.ordered, self.lengths, self.signed, self.cyclic, self.position, self.iterator):
            r = f()
            if r:
                return r
        return None

    # -- a number that only grows or only shrinks, without wrapping
    def measures(self):
        for t, vs in self.vars.items():
            if t[0] in ('phi', 'mphi') and not any(v[0] == 'p' for v in vs) and 8 <= tbits(t) <= 64:
                yield t, vs

    def ordered(self):
        for t, vs in self.measures():
            if t[0] == 'mphi' and t[4][0] == 's':
                continue
            for k, a in (('grows', 1), ('shrinks', 0)):
                if all(self.e.prove(st, 'ult', *((t, v) if a else (v, t))) for (b, st), v in zip(self.back, vs)):
                    return k
        return None

    # -- the length of a string or list that shrinks
    def lengths(self):
        for t, vs in self.vars.items():
            if t[0] == 'mphi' and t[4][0] == 's':
                n = ('len', 64, t)
                if all(self.e.prove(st, 'ult', ('len', 64, v), n) for (b, st), v in zip(self.back, vs)):
                    return 'length shrinks'
        return None

    def const_steps(self):
        for t, vs in self.measures():
            bits = tbits(t)
            ds = []
            for v in vs:
                d = self.delta(t, v, bits)
                if d is None:
                    break
                ds.append(d)
            else:
                if ds:
                    yield t, bits, ds

    def delta(self, t, v, bits):
        v = unwrap(v, bits)
        k = 0
        while v != t:
            if v[0] == 'op' and v[2] in ('add', 'sub') and v[4][0] == 'c':
                k += v[4][1] if v[2] == 'add' else -v[4][1]
                v = unwrap(v[3], bits)
            else:
                return None
        k %= 1 << bits
        return k - (1 << bits) if k >> (bits - 1) else k

    # -- a signed counter kept in its range by a signed comparison in the same iteration
    def signed(self):
        for t, bits, ds in self.const_steps():
            if all(0 < d <= 1 << 16 for d in ds) and all(any(self.below(f, t, bits, d) for f in self.facts(st)) for d, (b, st) in zip(ds, self.back)):
                return 'signed counter grows'
            if all(-(1 << 16) <= d < 0 for d in ds) and all(any(self.above(f, t, bits, d) for f in self.facts(st)) for d, (b, st) in zip(ds, self.back)):
                return 'signed counter shrinks'
        return None

    def below(self, f, t, bits, d):
        if f[0] not in ('slt', 'sle', 'ult'):
            return False
        x, y = f[1], f[2]
        if x == t:
            return f[0] == 'slt' and (d == 1 or bits == 64) and fixed(y, self.body)
        if x[0] == 'cast' and x[2] == 'sext' and x[4] == t:
            return f[0] == 'slt' and d == 1 and y[0] == 'cast' and y[3] <= bits and fixed(y, self.body)
        if x[0] == 'cast' and x[2] == 'zext' and x[4] == t:
            # an address in the file less a position of the stream
            return f[0] == 'slt' and d == 1 and y[0] == 'op' and y[2] == 'sub' and y[3][0] == 'cast' and y[3][2] == 'zext' \
                and y[3][3] <= bits and y[4][0] == 'call' and ('tell' in y[4][2] or y[4][2] == 'long') and fixed(y, self.body)
        return False

    def above(self, f, t, bits, d):
        if f[0] not in ('slt', 'sle') or f[2] != t:
            return False
        y = f[1]
        if y[0] != 'c':
            return False
        k = y[1] - (1 << bits) if y[1] >> (bits - 1) else y[1]
        return k + (f[0] == 'slt') + d >= -(1 << (bits - 1))

    # -- a counter that visits every value of its type, and leaves at one of them
    def cyclic(self):
        for t, bits, ds in self.const_steps():
            if any(d % 2 == 0 or d != ds[0] for d in ds):
                continue
            if all(any(self.excludes(f, t, bits) for f in self.facts(st)) for b, st in self.back):
                return 'counter takes every value'
        for t, vs in self.vars.items():
            if t[0] == 'mphi' and t[4][0] == 's':
                n = ('len', 64, t)
                if all(self.e.prove(st, 'eq', ('len', 64, v), self.e.mkop('add', 64, n, C(1, 64))) and
                       any(f[0] == 'ne' and f[1] in (n, ('len', 64, v)) and fixed(f[2], self.body) for f in self.facts(st))
                       for (b, st), v in zip(self.back, vs)):
                    return 'length takes every value'
        return None

    def excludes(self, f, t, bits):
        if f[0] not in ('ne', 'ult', 'ule'):
            return False
        for x, y in ((f[1], f[2]), (f[2], f[1])) if f[0] == 'ne' else ((f[1], f[2]),):
            w = tbits(x) if x[0] != 'p' else 0
            x = unwrap(x, bits)
            if self.delta(t, x, bits) is None or not fixed(y, self.body):
                continue
            if f[0] == 'ne' and (w == bits or y[0] == 'cast' and y[2] == 'zext' and y[3] <= bits or y[0] == 'c' and y[1] < 1 << bits):
                return True
            if f[0] == 'ult' and (w == bits or y[0] == 'cast' and y[2] == 'zext' and y[3] <= bits or y[0] == 'c' and y[1] < 1 << bits):
                return True
        return False

    # -- an address that moves through the image, looked up in every iteration
    def position(self):
        e = self.e
        places = {}
        for b in self.body:
            for i in e.fn.blocks[b]:
                if i.op in ('call', 'invoke') and short(self.p, i).split('<')[0].startswith(LOOKUP):
                    for a in i.get('a', []):
                        t = e.term(a) if not isinstance(a, (dict,)) else None
                        while t is not None and t[0] == 'call' and t[2].endswith('pe_base::va_to_rva') and len(t) > 4:
                            t = t[4]
                        if t is None or t[0] == 'p' or tbits(t) not in (32, 64):
                            continue
                        s = set()
                        for m in self.subs:
                            v = subst(t, m)
                            d = diff(norm(v), norm(t))
                            s.add(d.get(1, 0) if set(d) == {1} else 0)
                        if fixed_but(t, self.body, self.vars) and len(s) == 1 and 0 < min(s) <= 1 << 16:
                            places.setdefault(min(s), set()).add((b, i.idx))
        for s, at in sorted(places.items()):
            if not self.evades(at):
                return 'address moves on'
        return None

    # -- an iterator of a tree that moves on in every iteration, over a container nothing changes
    def iterator(self):
        e = self.e
        inc = {}
        for b in self.body:
            for i in e.fn.blocks[b]:
                if i.op in ('call', 'invoke'):
                    n = name(self.p, i)
                    m = re.match(r'^std::_Rb_tree_(const_)?iterator<.*>::operator\+\+\(', n)
                    if m and i.get('a', []):
                        a = args(e, i)
                        if a and a[0][0] == 'p':
                            inc.setdefault(a[0][1], []).append((b, i))
        for base, at in inc.items():
            if self.evades([(b, i.idx) for b, i in at]):
                continue
            if self.tested(base) and self.kept(base, at):
                return 'iterator moves on'
        return None

    def tested(self, base):
        at = []
        for b in self.body:
            for i in self.e.fn.blocks[b]:
                if i.op in ('call', 'invoke') and re.match(r'^(bool )?std::operator[!=]=\(std::_Rb_tree', name(self.p, i)):
                    if any(x[0] == 'p' and x[1] == base for x in args(self.e, i)):
                        at.append((b, i.idx))
        return at and not self.evades(at)

    def kept(self, base, at):
        e = self.e
        ty = elem(name(self.p, at[0][1]))
        for b in self.body:
            for i in e.fn.blocks[b]:
                if i.op == 'store':
                    q = e.term(i.get('p')) if i.get('p') is not None else None
                    if q is not None and q[0] == 'p' and q[1] == base:
                        return False
                if i.op in ('call', 'invoke'):
                    n = name(self.p, i)
                    if any(x[0] == 'p' and x[1] == base for x in args(e, i)) and not re.search(r'operator(\+\+|\*|->|==|!=)|_Rb_tree_const_iterator\(', n) \
                            and not n.startswith('llvm.lifetime'):
                        return False
                    m = re.match(r'^std::(multi)?(map|set)<', n)
                    if m and re.search(r'>::(erase|clear|swap|operator=|insert|operator\[\])\(', n) and elem(n) == ty:
                        return False
        return True


def elem(n):
    m = re.search(r'std::(?:multi)?(?:map|set)<(.*)', n) or re.search(r'_iterator<(.*)', n)
    s = re.sub(r'\bconst\b|\s', '', m.group(1)) if m else n
    s = s.replace('std::pair<', '')
    return s[:40]


def args(e, i):
    r = []
    for a in i.get('a', []):
        try:
            t = e.term(a)
        except Exception:
            continue
        if isinstance(t, tuple):
            r.append(t)
    return r


def unwrap(t, bits):
    while t[0] == 'cast' and (t[2] in ('zext', 'sext') and t[3] >= bits or t[2] == 'trunc' and t[1] >= bits):
        t = t[4]
    return t


def fixed_but(t, body, vs):
    if t in vs:
        return True
    if not isinstance(t, tuple):
        return True
    if t and t[0] in ('phi', 'mphi', 'sym', 'v') and not fixed(t, body):
        return False
    return all(fixed_but(x, body, vs) for x in t)


class Calls(bounds.Hooks):
    def __init__(self):
        self.seen = []

    def call(self, e, st, i, fn, a):
        if e.final:
            self.seen.append((i, fn, a, st.copy()))


def inside(t, pred):
    if not isinstance(t, tuple):
        return False
    return bool(t) and pred(t) or any(inside(x, pred) for x in t)


def recursions(p, fs):
    """{function: the functions it calls directly which can reach it again}"""
    own = set(f.mangled for f in fs)
    calls = dict((f.mangled, set(i.callee for b in f.blocks for i in b if i.op in ('call', 'invoke') and i.callee in own)) for f in fs)

    def reach(a):
        seen, work = set(), list(calls[a])
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += calls[x]
        return seen
    r = {}
    to = dict((m, reach(m)) for m in calls)
    for m in calls:
        for c in calls[m]:
            if m in to[c] or m == c:
                r.setdefault(m, set()).add(c)
    return r


def descends(p, f, callee):
    """why every call of f to itself gets closer to an end"""
    if callee != f.mangled:
        return [('', None)]
    h = Calls()
    _, e = bounds.run(p, f, hooks=h)
    gets = {}
    for i, fn, a, st in h.seen:
        if fn is not None and fn.short == 'resource_directory_entry::get_resource_directory' and a:
            gets[i.id] = a[0]
    r = []
    for i, fn, a, st in h.seen:
        if i.callee != f.mangled:
            continue
        w = None
        for k, x in enumerate(a):
            if x[0] != 'p':
                continue
            mine = lambda t: t[0] == 'elem' and inside(t, lambda u: u[0] == 'sv' and u[1] == ('arg', k))
            got = lambda t: t[0] == 'call' and t[2] == 'pe_bliss::resource_directory_entry::get_resource_directory' and inside(t, mine) \
                or t[0] == 'sym' and len(t) > 4 and t[2] == 'ins' and t[4] in gets and inside(gets[t[4]], mine)
            if inside(x, got):
                w = 'the directory of an entry of the directory given, which is owned by it'
        if w is None:
            w = visited(e, f, h, i, a, st)
        r.append((i.loc, w))
    return r


def added(t, j):
    while t[0] == 'cast':
        t = t[4]
    return t[0] == 'op' and t[2] == 'xv' and t[3][0] == 'sym' and t[3][2] == 'ins' and t[3][4] == j.id and t[4] == C(1, 32)


def absent(e, h, box, key, st):
    """at st the key is known not to be a member of the set"""
    found, ends = [], []
    for j, fn, b, s in h.seen:
        n = fn.dem if fn is not None else (j.callee or '')
        if not b or b[0] != box or not n.startswith('std::set<'):
            continue
        me = e.env.get(j.id)
        if not isinstance(me, tuple):
            continue
        if me[0] == 'p':
            me = me[1]
        if '>::count(' in n and same(e, b[1], s, key, st) and e.prove(st, 'eq', me, C(0, 64)):
            return True
        if '>::find(' in n and same(e, b[1], s, key, st):
            found.append(me)
        if re.search(r'>::c?end\(', n):
            ends.append(me)
    for t in st.node.fset():
        if t[0] in ('true', 'false') and t[1][0] == 'call' and t[1][2] == ('std::operator==' if t[0] == 'true' else 'std::operator!='):
            v = [e.read(st, x[1], x[2], 8) for x in t[1][3:5] if x[0] == 'p']
            if len(v) == 2 and any(inside(v[k], lambda u: u in found) and inside(v[1 - k], lambda u: u in ends) for k in (0, 1)):
                return True
    return False


def same(e, a, s, b, st):
    return a == b and e.read(s, a[1], a[2], 4) == e.read(st, b[1], b[2], 4)


def visited(e, f, h, i, a, st):
    """the call is made only after a new member came into a set that all the calls share"""
    for k, x in enumerate(a):
        if x != ('p', ('arg', k), (0, ())) or not f.params[k - (len(f.args) - len(f.params))].startswith('std::set<'):
            continue
        ins, other = [], False
        for j, fn, b, s in h.seen:
            n = fn.dem if fn is not None else (j.callee or '')
            if not b or b[0] != x or not n.startswith('std::set<'):
                continue
            if '>::insert(' in n:
                ins.append((j, b, s))
            elif re.search(r'>::(erase|clear|swap|operator=|extract|merge)\(', n):
                other = True
        if other:
            continue
        for j, b, s in ins:
            if any(t[0] == 'true' and added(t[1], j) for t in st.node.fset()) \
                    or absent(e, h, x, b[1], s) and avoids(e, (0, 0), {(j.bb, j.idx)}, {(i.bb, i.idx)}, lambda *q: False) is None:
                return 'every call adds a new member to a set that all of them share'
    return None


def _one(m):
    p = _state['prog']
    f = p.fns[m]
    h, e = bounds.run(p, f)
    r = []
    for hd in sorted(e.cfg.loops):
        l = Loop(p, e, hd)
        if l.back:
            r.append((hd, l.loc(), l.why()))
    return m, r


def run(ck):
    p = ir.load('mod')
    keep = _bounds.keepset()
    fs = [f for f in p.repo_fns() if f.mangled in keep]
    _state['prog'] = p
    n = 0
    for m, r in pmap(_one, [f.mangled for f in fs]):
        f = p.fns[m]
        for k, (hd, loc, w) in enumerate(r):
            n += 1
            ck.ob(w is not None, '%s: loop %d' % (f.short, k + 1), '%s (%s)' % (loc, f.short), w or 'no measure shows that the loop ends')
    ck.count('functions analysed', len(fs))
    for m, cs in sorted(recursions(p, fs).items()):
        f = p.fns[m]
        for c in sorted(cs):
            rs = descends(p, f, c)
            ck.need(len(rs), 1, 'recursive calls of %s' % f.short)
            for k, (loc, w) in enumerate(rs):
                ck.ob(w is not None, '%s: recursive call %d' % (f.short, k + 1), '%s (%s)' % (loc or floc(f), f.short), w or 'nothing shows that the recursion ends')
    ck.need(n, 100, 'loops')
    ck.level = 'proof'
    ck.trusted = ['clang 18', 'tools/irx', 'pv/absint.py', 'pv/bounds.py', 'a stream has less than 2^63 bytes and reports its position truthfully',
                  'lookups by relative address throw outside of the headers and sections, and no section reaches the end of the 32-bit address space (P05)',
                  'containers and their iterators behave as the standard says; an owned tree of resource directories is finite']
    ck.explanation = ('For every natural loop of every function of the library a measure is looked for and shown on every way back to the head: a number that moves in one direction '
                      'towards a bound that does not change in the loop and cannot step over it or wrap; a cyclic number compared for inequality which passes every value of its type; '
                      'a position that grows and is looked up in the image on every round, where a lookup beyond the sections throws; a container which becomes shorter; or an iterator '
                      'which advances on every round towards the end of a container that does not grow. Every recursive call descends into an object owned by the argument, or adds a member to a set that all calls share.')
