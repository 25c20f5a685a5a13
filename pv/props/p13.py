"""P13: constructors leave no member of an object undetermined."""
from .. import ir, heap, objs
from ..heap import C
from .p12 import where, last, CLS


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18 and its debug information', 'tools/irx', 'pv/heap.py', 'default construction of std containers makes them empty']
    ck.explanation = ('Every constructor of every class of the library is summarised path by path; when it returns, each scalar, pointer and array member '
                      '(found in the debug information, nested members included) must have been written with a value that does not come from uninitialised '
                      'storage.')
    ck.assumptions = ['structures of the file format (plain records without constructors) are filled by their users']
    n = 0
    for mode in ('f32', 'f64'):
        p = ir.load(mode)
        for cls in sorted(p.types):
            if '::pe_win::' in cls.split('<')[0] or 'lambda' in cls:
                continue
            if ('headers32' in cls and mode == 'f64') or ('headers64' in cls and mode == 'f32'):
                continue
            if mode == 'f64' and 'headers64' not in cls and cls != 'pe_bliss::pe_base':
                continue
            ls = [l for l in objs.leaves(p, cls)]
            plain = ir.strip_tpl(cls)
            for f in objs.members(p, cls):
                if last(f.name) != last(plain) or ('<' in cls and not f.dem.startswith(cls + '::')):
                    continue
                n += 1
                ctor(ck, p, f, cls, ls, mode)
    ck.need(n, 40, 'constructors')


def fromraw(v, this, d=0):
    """the value contains initial content of the object under construction"""
    if not isinstance(v, tuple) or d > 12:
        return False
    if v and v[0] == 'ld' and len(v) == 5 and v[1] == this:
        return True
    if v and v[0] == 'any' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('undef', 'mix', 'rest', 'part', 'clob'):
        return 'this' if v[1][0] == 'undef' else any(x == this for x in v[1])
    return any(fromraw(x, this, d + 1) for x in v if isinstance(x, tuple))


def base(f, o, k):
    """offset of operand o from argument k of f, or None"""
    off = 0
    for _ in range(20):
        if isinstance(o, list) and o and o[0] == 'o':
            off += o[2]
            o = o[1]
            continue
        if not isinstance(o, int):
            return None
        if o in f.argidx:
            return off if f.argidx[o] == k else None
        d = f.defs.get(o)
        if d is None or d.op not in ('getelementptr', 'bitcast'):
            return None
        if d.op == 'getelementptr':
            if d.get('vs'):
                return None
            off += d.get('off') or 0
            o = d.get('p')
        else:
            o = d.get('a')[0]
    return None


def must(p, f, k, memo, depth=0):
    """bytes, relative to argument k, that f has written whenever it returns"""
    key = (f.mangled, k)
    if key in memo:
        return memo[key]
    memo[key] = frozenset()
    inn = {0: frozenset()}
    ret = None
    work = [0]
    while work:
        b = work.pop()
        cur = set(inn[b])
        for i in f.blocks[b]:
            if i.op == 'store':
                o = base(f, i.get('p'), k)
                if o is not None:
                    cur.update(range(o, o + i.get('sz')))
            elif i.is_call():
                a = i.get('a') or []
                for j, x in enumerate(a):
                    o = base(f, x, k)
                    if o is None:
                        continue
                    c = i.callee or ''
                    g = p.fns.get(c)
                    if c.startswith(heap.INTRS):
                        if j == 0 and isinstance(a[2], list) and a[2][0] == 'c':
                            cur.update(range(o, o + int(a[2][1])))
                    elif g is not None and g.has_body and depth < 5:
                        cur.update(o + z for z in must(p, g, j, memo, depth + 1))
                    elif g is not None and last(g.name) == 'read' and j == 1 and isinstance(a[2], list) and a[2][0] == 'c':
                        cur.update(range(o, o + int(a[2][1])))
        t = f.blocks[b][-1]
        if t.op == 'ret':
            ret = cur if ret is None else ret & cur
        ss = [t.get('nd')] if t.op == 'invoke' else t.succs()
        for n in ss:
            new = frozenset(cur) if n not in inn else inn[n] & cur
            if n not in inn or new != inn[n]:
                inn[n] = frozenset(new)
                work.append(n)
    memo[key] = frozenset(ret or ())
    return memo[key]


def ctor(ck, p, f, cls, ls, mode):
    this = ('arg', 0)
    P = heap.Paths(p, f, own=[this])
    ps = ', '.join(x.replace('pe_bliss::', '').replace('pe_win::', '').replace(' const&', '').split('<')[0] for x in f.params)
    k = '%s(%s)%s' % (ir.strip_tpl(cls).replace('pe_bliss::', ''), ps, ' (%s)' % mode if 'headers' in cls or cls.endswith('pe_base') else '')
    bad = set()
    done = must(p, f, 0, {}) if any(s.visit.get(('hit', this)) is not None for _, s in P.rets) else frozenset()
    for v, s in P.rets:
        given = s.visit.get(('hit', this)) is not None
        for path, off, size, kind, ty in ls:
            if kind == 'k':
                continue
            for j in range(0, size, size if kind != 'a' else 1):
                x = P.cell(s, this, off + j, size if kind != 'a' else 1)
                if given and done.issuperset(range(off, off + size)):
                    continue        # filled by a function the object was handed to
                if fromraw(x, this):
                    bad.add(path)
    ck.count('members', len(ls))
    ck.ob(P.complete and not bad, k + ': every member gets a value', where(f), 'not initialised: ' + ', '.join(sorted(bad)[:8]) if bad else 'too complex to summarise')
