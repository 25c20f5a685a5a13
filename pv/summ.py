"""Behaviour of small functions: what one call returns, stores, calls and throws, for all inputs or for an assumed case."""
from . import post
from .absint import C, mkptr, off_add, tbits, NOFF
from .build import Broken

W = {'uint8_t': 1, 'int8_t': 1, 'uint16_t': 2, 'int16_t': 2, 'uint32_t': 4, 'int32_t': 4, 'uint64_t': 8, 'int64_t': 8,
     'unsigned char': 1, 'unsigned short': 2, 'unsigned int': 4, 'unsigned long': 8}
PURE = ('__cxa_allocate_exception', '__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch')


class Sum(post.Rec):
    """assume(engine, state) -> facts that hold on entry; bind: argument index -> constant"""

    def __init__(self, p, f, bind=None, assume=None, models=None, opts=None):
        post.Rec.__init__(self, lambda fn, i: False)
        self.p = p
        self.f = f
        self.throws = []
        self.effects = []
        self.all = []
        self.results = []
        m = dict(models or {})
        if assume:
            old = m.get('init')

            def init(e, st):
                if old:
                    old(e, st)
                e.add_facts(st, list(assume(e, st)))
            m['init'] = init
        o = {'bind': bind or {}, 'phiguard': True, 'prune': True}
        o.update(opts or {})
        self.e, _ = post.analyse(p, f, models=m, opts=o, hooks=self)

    def call(self, e, st, i, fn, a):
        if not e.final:
            return
        n = fn.name if fn else None
        if n in ('__cxa_throw', '__cxa_rethrow'):
            if not post.Q(e, st).impossible():
                self.throws.append((i, st.copy()))
            return
        self.all.append((i, fn, a, st.copy()))

    def after_call(self, e, st, i, fn, a, res):
        if e.final:
            self.results.append((i, fn, a, res, st.copy()))

    def ret(self, e, st, i):
        if e.final and not post.Q(e, st).impossible():
            a = i.get('a')
            self.rets.append((e.term(a[0]) if a else None, st.copy(), i))

    # -- results
    def only_throws(self):
        return not self.rets and bool(self.throws)

    def never_throws(self):
        return not self.throws

    def values(self):
        """leaf values of the results (phis taken apart), each with its state"""
        return [(t, st) for v, st, i in self.rets for t in leaves(self.e, v)]

    def cases(self):
        """(leaf value, question at that leaf), one per way the result can come about"""
        return [x for v, st, i in self.rets for x in cases(self.e, st, v, bb=i.bb)]

    def cell(self, st, base, off, size):
        return self.e.read(st, base, (off, ()), size)

    def stores(self, st, base):
        return dict(((k[1], v[0]), v[1]) for k, v in st.mem.get(base, {}).items() if k[0] == 'v')


def leaves(e, t, seen=None):
    seen = seen if seen is not None else set()
    if t is None:
        return [None]
    if t in seen:
        return []
    seen.add(t)
    if t in e.phi_edges:
        r = []
        for _, v, _ in e.phi_edges[t]:
            for x in leaves(e, v, seen):
                if x not in r:
                    r.append(x)
        return r
    if t[0] == 'sel':
        return [x for v in t[3:5] for x in leaves(e, v, seen)]
    if t[0] == 'cast' and t[4] in e.phi_edges:
        return [e.mkcast(t[2], t[3], t[1], x) for x in leaves(e, t[4], seen)]
    return [t]


def cases(e, st, t, depth=0, seen=frozenset(), bb=None):
    q = post.Q(e, st).contra()
    q.bb = bb
    if q.impossible():
        return []
    if t is None or depth > 10:
        return [(t, q)]
    if t in e.phi_edges:
        r = []
        for pb, v, node in e.phi_edges[t]:
            if v != t and t not in seen:
                r += cases(e, q.under(edge_facts(e, t, pb, node)).st, v, depth + 1, seen | {t}, pb)
        return r
    if t[0] == 'p' and t[1][0] == 'obj' and (t[1][1][0] == 'sel' or t[1][1] in e.phi_edges):
        r = []
        for v, u in cases(e, q.st, t[1][1], depth + 1, seen, bb):
            b, o = e.asptr(v)
            o = off_add(o, t[2][0])
            for x, k in t[2][1]:
                o = off_add(o, 0, x, k)
            r.append((mkptr(b, o), u))
        return r
    if t[0] == 'sel':
        return [x for val, v in ((True, t[3]), (False, t[4])) for x in cases(e, q.cond(t[2], val).st, v, depth + 1, seen, bb)]
    if t[0] == 'cast':
        return [((e.mkcast(t[2], t[3], t[1], v)), u) for v, u in cases(e, q.st, t[4], depth + 1, seen, bb)]
    if t[0] == 'op' and any(x in e.phi_edges or x[0] in ('sel', 'cast', 'op') for x in t[3:5]):
        return [(e.mkop(t[2], t[1], v, w), z) for v, u in cases(e, q.st, t[3], depth + 1, seen, bb) for w, z in cases(e, u.st, t[4], depth + 1, seen, u.bb)]
    return [(t, q)]


def unreachable(e, q, facts, depth=12):
    """no path to the block of q satisfies the facts: every way in is refuted, joins taken apart (acyclic part only)"""
    facts = list(facts)
    if refuted(e, q.under(facts)):
        return True
    bb = getattr(q, 'bb', None)
    if bb is None or depth == 0 or bb in e.cfg.loops:
        return False
    ins = [p for p in e.cfg.pred[bb] if (p, bb) in e.out]
    if not ins:
        return False
    for p in ins:
        u = post.Q(e, e.out[(p, bb)])
        u.bb = p
        if not unreachable(e, u, facts, depth - 1):
            return False
    return True


def edge_facts(e, t, pb, node):
    """what holds when the merged value t comes in from block pb"""
    return list(node.facts()) + [('eq', x, w) for x, ed in e.phi_edges.items() if x[:1] == ('phi',) and len(x) == 4 and x[2] == t[2] and tbits(x) < 64
                                 for b, w, _ in ed if b == pb and w != x]


def refuted(e, q, depth=2):
    """no way to satisfy the facts, taking merged flags apart"""
    q = q.contra()
    if q.impossible():
        return True
    if not depth:
        return False
    done = set()
    for f in q.facts():
        if f[0] in ('eq', 'ne', 'true', 'false'):
            for t in f[1:]:
                if isinstance(t, tuple) and t[0] == 'sel' and t not in done:
                    done.add(t)
                    if all(refuted(e, q.cond(t[2], val).under([('eq', t, v)]), depth - 1) for val, v in ((True, t[3]), (False, t[4]))):
                        return True
                if isinstance(t, tuple) and t in e.phi_edges and t not in done and t[0] == 'phi' and len(t) == 4:
                    done.add(t)
                    if all(refuted(e, q.under(edge_facts(e, t, pb, node)), depth - 1) for pb, v, node in e.phi_edges[t] if v != t):
                        return True
    return False


def modlin(e, t, bits, k=1, acc=None):
    """t as a linear combination of atoms modulo 2^bits: {atom: coefficient}, constant under None"""
    top = acc is None
    acc = {} if top else acc
    m = (1 << bits) - 1

    def put(a, n):
        acc[a] = (acc.get(a, 0) + n) & m
    if t[0] == 'c':
        put(None, k * t[1])
    elif t[0] == 'op' and t[1] >= bits and t[2] in ('add', 'sub'):
        modlin(e, t[3], bits, k, acc)
        modlin(e, t[4], bits, k if t[2] == 'add' else -k, acc)
    elif t[0] == 'op' and t[1] >= bits and t[2] == 'mul' and t[4][0] == 'c':
        modlin(e, t[3], bits, k * t[4][1], acc)
    elif t[0] == 'op' and t[1] >= bits and t[2] == 'shl' and t[4][0] == 'c' and t[4][1] < t[1]:
        modlin(e, t[3], bits, k << t[4][1], acc)
    elif t[0] == 'cast' and t[2] == 'trunc' and t[1] >= bits:
        modlin(e, t[4], bits, k, acc)
    elif t[0] == 'cast' and t[2] in ('zext', 'sext') and t[3] >= bits:
        modlin(e, t[4], bits, k, acc)
    elif tbits(t) > bits and t[0] != 'cast':
        put(('low', bits, t), k)
    else:
        put(t, k)
    if top:
        return dict((a, n) for a, n in acc.items() if n)


def truth(e, st, t, depth=0):
    """'yes', 'no' or None: the value of a boolean term under the facts of st"""
    if t[0] == 'c':
        return 'yes' if t[1] else 'no'
    q = post.Q(e, st)
    if depth > 8:
        return None
    if t[0] == 'cast' and t[2] == 'zext':
        return truth(e, st, t[4], depth + 1)
    if t[0] == 'cast' and t[2] == 'trunc' and t[1] == 1 and t[4][0] == 'sel' and all(x[0] == 'c' for x in t[4][3:5]):
        s = t[4]
        return truth(e, st, ('sel', 1, s[2], C(s[3][1] & 1, 1), C(s[4][1] & 1, 1)), depth + 1)
    if t[0] == 'cast' and t[2] == 'trunc' and t[1] == 1 and t[4] in e.phi_edges and all(v[0] == 'c' for _, v, _ in e.phi_edges[t[4]]):
        return truth(e, st, t[4], depth + 1)
    if t[0] == 'sel':
        vs = set()
        for val, x in ((True, t[3]), (False, t[4])):
            u = q.cond(t[2], val)
            if not u.impossible():
                vs.add(truth(e, u.st, x, depth + 1))
        return vs.pop() if len(vs) == 1 else None
    if t in e.phi_edges:
        vs = set()
        for _, v, node in e.phi_edges[t]:
            u = q.under([f for f in node.facts()])
            if v == t or u.impossible():
                continue
            vs.add(truth(e, u.st, v, depth + 1))
        return vs.pop() if len(vs) == 1 else None
    if q.cond(t, False).impossible():
        return 'yes'
    if q.cond(t, True).impossible():
        return 'no'
    return None


def width(p, t):
    return W.get(t.replace('pe_bliss::', ''), None)


class Layout(object):
    """offsets and sizes of nested members, by dotted path"""

    def __init__(self, p):
        self.p = p
        self.by = {}
        for n, t in p.types.items():
            self.by.setdefault(n, t)
            self.by.setdefault(n.split('::')[-1], t)

    def at(self, cls, path):
        t = self.by.get(cls)
        off = 0
        size = None
        for part in path.split('.'):
            if t is None:
                raise Broken('type of %s in %s not found' % (path, cls))
            idx = None
            if '[' in part:
                part, idx = part[:-1].split('[')
            m = [x for x in t['m'] if x[0] == part]
            if not m:
                raise Broken('member %s of %s not found' % (path, cls))
            m = m[0]
            off += m[1]
            ty = m[3]
            size = m[2] or W.get(ty)
            el = ty[:-2] if ty.endswith('[]') else ty
            t = self.by.get(el)
            if idx is not None:
                es = (t['sz'] if t else W.get(el))
                off += int(idx) * es
                size = es
        return off, size


def fns(p, name, ptypes=None, const=None):
    r = [f for f in p.named(name) if (ptypes is None or [x.replace('pe_bliss::', '').replace('pe_win::', '') for x in f.params] == list(ptypes)) and (const is None or f.const == const)]
    return r
