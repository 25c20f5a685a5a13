"""P12: copying and assigning the library's value objects gives an equal and independent object."""
from .. import ir, heap, objs, build
from ..heap import C, NULL

CLS = {'f32': '32', 'f64': '64'}
MUST = ('pe_bliss::debug_info', 'pe_bliss::resource_directory_entry', 'pe_bliss::pe_base')


def last(n):
    return n.split('::')[-1]


def where(f):
    return '%s (%s)' % (f.loc if hasattr(f, 'loc') else floc(f), f.short if hasattr(f, 'short') else f.name)


def floc(f):
    for b in f.blocks:
        for i in b:
            if i.get('l'):
                return i.loc
    return '?'


def copies(p):
    """[(class, kind, function)] of every copying member function with a body"""
    r = []
    for f in p.repo_fns():
        parts = f.dem.replace('std::__cxx11::', 'std::')
        if len(f.params) != 1 or f.const:
            continue
        cls = None
        pr = f.params[0]
        if not pr.endswith('&'):
            continue
        for c in p.types:
            if pr.replace(' const&', '').replace('&&', '').replace('&', '').strip() == c.replace('> >', '> >'):
                cls = c
        if cls is None or 'pe_win' in cls:
            continue
        n = f.name
        own = n.rsplit('::', 1)[0]
        plain = ir.strip_tpl(cls)
        if own != plain:
            continue
        if last(n) == last(plain):
            r.append((cls, 'copy constructor' if pr.endswith('const&') else 'move constructor', f))
        elif last(n) == 'operator=':
            r.append((cls, 'copy assignment' if pr.endswith('const&') else 'move assignment', f))
    return r


def late_use(s):
    """loads from or stores to an object after it was deleted"""
    gone = set()
    for e in s.events:
        if e[0] == 'new':
            gone.discard(e[2])
        elif e[0] == 'free':
            gone.add(e[2])
        elif e[0] in ('load', 'store') and e[2][1] in gone:
            return e[1]
        elif e[0] == 'call' and any(x[0] == 'p' and x[1] in gone for x in e[3]) and e[1].callee not in heap.DELS:
            return e[1]
    return None


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18 and its debug information', 'tools/irx', 'pv/heap.py', 'models of std containers (a copy has the content of its source)']
    ck.explanation = ('Every copy/move constructor and assignment with a body in the library is summarised path by path; in each end state every '
                      'scalar member must hold the source\'s value, every library object the source\'s content, and every owned pointer must be null '
                      'when the source owns nothing, or point to a fresh object of the class the tag names whose members are in turn copies. '
                      'Assignment is analysed a second time with source and destination being the same object: nothing may be used after deletion '
                      'and the object must keep its value.')
    ck.assumptions = ['an object owns what its pointer member points to (checked by P25)', 'source and destination are the same object or do not overlap']
    seen = set()
    for mode in ('f32', 'f64'):
        p = ir.load(mode)
        tags = objs.tagspec(p)
        dyn = {}
        for c in p.types:
            if c.startswith('pe_bliss::pe_properties_generic') and ('headers' + CLS[mode]) in c:
                dyn['pe_bliss::pe_properties'] = c
        for cls, kind, f in copies(p):
            key = (cls, kind)
            if mode == 'f64' and cls != 'pe_bliss::pe_base' and ('headers64' not in cls):
                continue
            if key in seen and cls != 'pe_bliss::pe_base':
                continue
            seen.add(key)
            name = ir.strip_tpl(cls).replace('pe_bliss::', '')
            k = '%s: %s%s' % (name, kind, ' (%s)' % mode if cls == 'pe_bliss::pe_base' or 'generic' in cls else '')
            one(ck, p, f, cls, kind, k, tags, dyn)
        # the clone of the header properties
        for f in p.named('pe_properties_generic::duplicate'):
            if ('headers' + CLS[mode]) in f.dem:
                clone(ck, p, f, mode, tags)
    for c in MUST:
        for kind in ('copy constructor', 'copy assignment'):
            if kind == 'copy assignment' and c == 'pe_bliss::pe_base' and (c, kind) not in seen:
                continue
            ck.ob((c, kind) in seen, '%s: has a %s of its own' % (last(c), kind), 'src/pe_lib', 'a class that owns memory is copied member by member')
    ck.count('copying functions analysed', len(seen))


def one(ck, p, f, cls, kind, k, tags, dyn):
    P = heap.Paths(p, f, pre=lambda P: [heap.mkcmp('ne', ('p', ('arg', 0), 0), ('p', ('arg', 1), 0))])
    w = where(f)
    ck.ob(P.complete, k + ': analysed on every path', w, 'the function is too complex to summarise')
    if not P.complete:
        return
    ck.count('paths', len(P.rets))
    bad = {}
    for v, s in P.rets:
        c = objs.Copy(P, s, tags, dyn)
        if kind.endswith('assignment') and v is not None and v != ('p', ('arg', 0), 0):
            bad.setdefault('does not return the object itself', 1)
        c.run(cls, (('arg', 0), 0), (('arg', 1), 0))
        for b in c.bad:
            bad.setdefault(b, 1)
        i = late_use(s)
        if i is not None:
            bad.setdefault('an object is used after its deletion (%s)' % i.loc, 1)
        if any(e[0] == 'double' for e in s.events):
            bad.setdefault('an object is deleted twice', 1)
        if not kind.startswith('move'):
            for b in source(P, s, cls):
                bad.setdefault(b, 1)
    ck.ob(not bad, k + ': the object is a complete, deep copy', w, '; '.join(sorted(bad)[:6]))
    ck.ob(bool(P.rets), k + ': can succeed', w, 'no path returns')
    if kind != 'copy assignment':
        return
    Q = heap.Paths(p, f, alias={1: 0})
    bad = {}
    for v, s in Q.rets:
        c = objs.Copy(Q, s, tags, dyn)
        c.run(cls, (('arg', 0), 0), (('arg', 0), 0))
        for b in c.bad:
            bad.setdefault(b, 1)
        i = late_use(s)
        if i is not None:
            bad.setdefault('an object is used after its deletion (%s)' % i.loc, 1)
        if any(e[0] == 'double' for e in s.events):
            bad.setdefault('an object is deleted twice', 1)
    ck.ob(Q.complete and not bad, k + ': assigning an object to itself keeps it', w, '; '.join(sorted(bad)[:6]) or 'not analysed')


def source(P, s, cls):
    """the source object is left alone"""
    r = []
    for (b, o), (sz, v) in s.mem.items():
        if b == ('arg', 1) and v != ('ld', b, o, sz, 0):
            r.append('the source object is changed at offset %s' % (o,))
    for (b, o), c in s.cont.items():
        if b == ('arg', 1) and c[:3] != ('init', b, o):
            r.append('the source object is changed at offset %s' % (o,))
    for b in s.freed:
        if b[0] == 'ref' and b[1][0] == 'ld' and b[1][1] == ('arg', 1):
            r.append('something the source owns is deleted')
    return r


def clone(ck, p, f, mode, tags):
    P = heap.Paths(p, f)
    w = where(f)
    cls = [c for c in p.types if c.startswith('pe_bliss::pe_properties_generic') and ('headers' + CLS[mode]) in c]
    bad = {}
    for v, s in P.rets:
        # the returned owner: an out-parameter or a pointer
        ptr = None
        if v is not None and v[0] == 'p' and v[1][0] == 'new':
            ptr = v
        else:
            c = P.content(s, ('p', ('arg', 0), 0))
            if c[0] == 'of' and c[2] and c[2][0][0] == 'p':
                ptr = c[2][0]
            else:
                x = P.cell(s, ('arg', 0), 0, 8)
                if x[0] == 'p':
                    ptr = x
        if ptr is None or ptr[1][0] != 'new' or ptr[1] in s.freed:
            bad['does not return a fresh object'] = 1
            continue
        src = 1 if len(f.args) == 2 else 0
        c = objs.Copy(P, s, tags, {})
        c.run(cls[0], (ptr[1], 0), (('arg', src), 0))
        for b in c.bad:
            bad[b] = 1
        vt = P.cell(s, ptr[1], 0, 8)
        if not (vt[0] == 'p' and vt[1][0] == 'glob' and ('headers' + CLS[mode]) in vt[1][1]):
            bad['the clone has another class (%s)' % objs.say(vt)] = 1
    ck.ob(P.complete and P.rets and not bad, 'header properties: the clone is a complete copy of the same class (%s)' % mode, w, '; '.join(sorted(bad)) or 'not analysed')
