"""P25: objects that own other objects free each of them exactly once, as what they are, and never keep a dangling one."""
from .. import ir, heap, objs
from ..heap import C, NULL, mkcmp, assume, decide
from .p12 import late_use, where, last, CLS

GETTERS = {'pe_bliss::resource_directory_entry::get_data_entry': 'pe_bliss::resource_data_entry',
           'pe_bliss::resource_directory_entry::get_resource_directory': 'pe_bliss::resource_directory'}


def ismember(f):
    n = len(f.args) - len(f.params)
    sret = bool(f.args and f.args[0].get('sret'))
    return n == (2 if sret else 1), (1 if sret else 0)


class Owner(object):
    def __init__(self, p, cls, leaf, classes, tag, dyn):
        self.p, self.cls, self.off, self.classes, self.dyn = p, cls, leaf[1], classes, dyn
        self.tag = tag          # (off, size, {value: class}) or None
        self.strict = tag is None or None in tag[2].values()

    def conts(self, T):
        return set(l[1] for l in objs.leaves(self.p, self.dyn.get(T, T)) if l[3] == 'k')

    def cases(self, ctor, this):
        """what may be true on entry: [(name, truths, class owned or None)]"""
        if ctor:
            return [('', [], None)]
        pin = ('ld', this, self.off, 8, 0)
        r = []
        for v, T in (sorted(self.tag[2].items()) if self.tag else [(None, self.classes[0])]):
            t = [mkcmp('eq', ('ld', this, self.tag[0], self.tag[1], 0), C(v, self.tag[1] * 8))] if self.tag else []
            if T is not None:
                r.append(('owning a ' + last(T), t + [mkcmp('ne', pin, NULL)], T))
            if T is None or not self.strict:
                r.append(('owning nothing', t + [mkcmp('eq', pin, NULL)], None))
        return r


def end(P, s, ow, this, T, ctor, dtor, thrown):
    """what is wrong with an end state: T is what the object owned on entry"""
    bad = set()
    pin = ('ld', this, ow.off, 8, 0)
    pb = ('ref', pin)
    out = P.cell(s, this, ow.off, 8)
    for e in s.events:
        if e[0] == 'double':
            bad.add('an object is deleted twice (%s)' % e[1].loc)
    i = late_use(s)
    if i is not None:
        bad.add('an object is used after it was deleted (%s)' % i.loc)
    frees = [e for e in s.events if e[0] == 'free' and e[2] == pb]
    if T is not None and frees:
        # deleted as what it is
        want = ow.conts(T)
        dead = set(k[1] for k, c in s.cont.items() if k[0] == pb and c[0] == 'dead')
        if dead != want:
            bad.add('what it owned is not destroyed as a %s' % last(T))
        for e in frees:
            if e[3] is not None and e[3][0] == 'c' and e[3][1] != ow.p.types[ow.dyn.get(T, T)]['sz']:
                bad.add('what it owned is deleted with the size of another class')
    gone = dtor or (ctor and thrown)
    if out == NULL or decide(s, mkcmp('eq', out, NULL)) is True:
        if T is not None and not frees:
            bad.add('what it owned is never deleted')
        if not gone:
            bad |= kind(P, s, ow, this, None, thrown)
    elif out == pin or (out[0] == 'p' and out[1] == pb):
        if T is not None and frees and not gone:
            bad.add('it keeps a pointer to a deleted object')
        if T is not None and not frees and gone:
            bad.add('what it owned is never deleted')
        if T is None and ctor and not thrown:
            bad.add('the pointer to the owned object is not initialised')
        if not gone and not ctor and T is not None:
            bad |= kind(P, s, ow, this, T, thrown)
    elif out[0] == 'p' and out[1][0] == 'new':
        if out[1] in s.freed and not gone:
            bad.add('it keeps a pointer to a deleted object')
        if out[1] not in s.freed and gone:
            bad.add('what it owns is never deleted')
        if T is not None and not frees:
            bad.add('what it owned is never deleted')
        if not gone:
            bad |= kind(P, s, ow, this, out[1], thrown)
    elif not gone:
        bad.add('the pointer to the owned object becomes %s' % objs.say(out))
    # nothing else that was created is forgotten
    live = set()
    for e in s.events:
        if e[0] == 'new':
            live.add(e[2])
    for b in live:
        if b in s.freed or (out[0] == 'p' and out[1] == b):
            continue
        if any(v[0] == 'p' and v[1] == b for (bb, o), (sz, v) in s.mem.items() if bb[0] != 'loc') or any(c[0] == 'of' and any(x == ('p', b, 0) for x in c[2]) for c in s.cont.values()):
            continue
        bad.add('an object created here is neither kept nor deleted')
    return bad


def kind(P, s, ow, this, held, thrown):
    """the tag says what is held: a class name (as on entry), a fresh base, or None"""
    if ow.tag is None:
        return set() if held is not None else set(['it owns nothing afterwards'])
    o, z, m = ow.tag
    t = P.cell(s, this, o, z)
    r = set()
    for v, T in m.items():
        x = s.copy()
        if not assume(x, mkcmp('eq', t, C(v, z * 8))):
            continue
        if held is None:
            if ow.strict and T is not None:
                r.add('it claims to own a %s but owns nothing' % last(T))
        elif isinstance(held, str):
            if T != held:
                r.add('it claims to own %s but owns a %s' % (last(T) if T else 'nothing', last(held)))
        else:
            n = objs.Copy(P, s, {}).size(held)
            have = set(k[1] for k in s.cont if k[0] == held)
            if T is None or (n is not None and n != ow.p.types[T]['sz']) or not ow.conts(T) <= have:
                r.add('it claims to own %s but owns something else' % (last(T) if T else 'nothing'))
    return r


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18 and its debug information', 'tools/irx', 'pv/heap.py', 'std containers and smart pointers behave as specified']
    ck.explanation = ('Every public member function of the classes that own heap objects through plain pointers is summarised path by path, once for each '
                      'kind of object that may be owned on entry, and again with a reference argument that denotes the owned object. In every end state, '
                      'normal or by exception, the pointer must be null, unchanged and alive, or a fresh object of the class the object reports; what was '
                      'owned before must have been destroyed exactly once as its class, and nothing may be used after its destruction. Conversion '
                      'descriptors are closed on every path.')
    ck.assumptions = ['destructors and operator delete do not throw', 'the invariant is assumed on entry and shown on exit of every public function (induction over any call history)']
    n = 0
    for mode in ('f32', 'f64'):
        p = ir.load(mode)
        tags = objs.tagspec(p)
        acc = objs.access(p)
        dyn = {}
        for c in p.types:
            if c.startswith('pe_bliss::pe_properties_generic') and ('headers' + CLS[mode]) in c:
                dyn['pe_bliss::pe_properties'] = c
        for cls in ('pe_bliss::debug_info', 'pe_bliss::resource_directory_entry', 'pe_bliss::pe_base'):
            if mode == 'f64' and cls != 'pe_bliss::pe_base':
                continue
            os = [x for x in objs.owners(p, cls)] if cls in p.types else []
            if not os:
                # nothing is owned through a plain pointer any more
                ck.ob(cls in p.types, '%s: what it owns is known' % last(cls), 'src/pe_lib', 'class not found')
                continue
            for leaf, classes in os:
                ow = Owner(p, cls, leaf, classes, tags.get(cls) if len(classes) > 1 else None, dyn)
                if len(classes) > 1:
                    ck.ob(cls in tags, '%s: what it owns is known' % last(cls), 'src/pe_lib', 'the member that tells the kind of the owned object is not found')
                    if cls not in tags:
                        continue
                for f in objs.members(p, cls):
                    mem, thisk = ismember(f)
                    if not mem or objs.public(acc, f) is False:
                        continue
                    if cls == 'pe_bliss::pe_base' and not touches(p, f, thisk, leaf[1]):
                        continue
                    n += 1
                    member(ck, p, f, ow, ('arg', thisk), mode)
    ck.need(n, 12, 'member functions of owning classes')
    p = ir.load('acc')
    n = 0
    for f in p.repo_fns():
        if any(i.callee == 'iconv_open' for b in f.blocks for i in b if i.is_call()):
            n += 1
            iconv(ck, p, f)
    ck.count('functions that open conversion descriptors', n)


def touches(p, f, thisk, off):
    """stores to the owned pointer, or is a constructor, destructor or assignment"""
    m = last(f.name)
    if m.startswith('~') or m == 'operator=' or m == last(f.name.rsplit('::', 1)[0]):
        return True
    thisid = f.args[thisk]['id']
    for b in f.blocks:
        for i in b:
            if i.op == 'store':
                o = i.get('p')
                d = f.defs.get(o) if isinstance(o, int) else None
                if d is not None and d.op == 'getelementptr' and d.get('p') == thisid and not d.get('vs') and d.get('off') == off:
                    return True
            elif i.is_call() and i.callee in heap.DELS:
                return True
    return False


def member(ck, p, f, ow, this, mode):
    m = last(f.name)
    cl = last(ir.strip_tpl(ow.cls))
    ctor, dtor = m == cl, m.startswith('~')
    ps = ', '.join(x.replace('pe_bliss::', '').replace('pe_win::', '').replace(' const&', '').split('<')[0] for x in f.params)
    k0 = '%s::%s(%s)%s%s' % (cl, tmpl(f), ps, ' const' if f.const else '', ' (%s)' % mode if cl == 'pe_base' else '')
    keep = ((this, ow.off),)
    base = len(f.args) - len(f.params)
    for name, pre, T in ow.cases(ctor, this):
        runs = [('', {})]
        for j, x in enumerate(f.params):
            xn = x.replace(' const&', '').strip()
            if T is not None and xn == T and T in GETTERS.values():
                runs.append((', given the object it owns', {j + base: ('p', ('ref', ('ld', this, ow.off, 8, 0)), 0)}))
            if T is not None and xn == ow.cls and T == 'pe_bliss::resource_directory':
                # an element of what it owns
                e = ('ref', ('call', 'element', (), 64, ()))
                runs.append((', given an entry of the directory it owns', {j + base: ('p', e, 0)}))
        for rn, bind in runs:
            def truths(P, pre=pre, bind=bind):
                r = list(pre)
                for j, x in enumerate(f.params):
                    if x.replace(' const&', '').strip() == ow.cls and j + base not in bind and this[1] != j + base:
                        r.append(mkcmp('ne', ('p', this, 0), ('p', ('arg', j + base), 0)))
                return r
            P = heap.Paths(p, f, pre=truths, bind=bind, keep=keep, own=[this], inner=[(('ref', ('call', 'element', (), 64, ())), ('ref', ('ld', this, ow.off, 8, 0)))])
            w = where(f)
            if not P.complete:
                ck.ob(False, k0 + ': analysed on every path', w, 'too complex to summarise')
                break
            bad = set()
            for v, s in P.rets:
                bad |= end(P, s, ow, this, T, ctor, dtor, False)
            for s in P.throws:
                bad |= set(x + ' when an exception leaves it' for x in end(P, s, ow, this, T, ctor, dtor, True))
            ck.count('paths', len(P.rets) + len(P.throws))
            ck.ob(not bad, '%s: %s%s' % (k0, name or 'constructs', rn), w, '; '.join(sorted(bad)[:5]))
            want = GETTERS.get(f.name)
            if m == 'get_advanced_debug_info':
                for c in ow.classes:
                    if '<%s>' % c in f.dem:
                        want = c
            if want and not rn:
                getter(ck, P, f, ow, this, k0, name, T, want, w)


def getter(ck, P, f, ow, this, k0, name, T, want, w):
    if T == want:
        bad = set()
        if P.throws and not f.args[0].get('sret') and any(s.exc for s in P.throws) and not P.rets:
            bad.add('always fails')
        for v, s in P.rets:
            pb = ('ref', ('ld', this, ow.off, 8, 0))
            if f.args[0].get('sret'):
                c = objs.Copy(P, s, {}, {})
                c.run(want, (('arg', 0), 0), (pb, 0))
                bad |= set(c.bad)
            elif v != ('p', pb, 0) and v != ('ld', this, ow.off, 8, 0):
                bad.add('returns %s' % objs.say(v))
        ck.ob(P.rets and not bad, '%s: %s, hands it out' % (k0, name), w, '; '.join(sorted(bad)[:4]) or 'always fails')
    else:
        ck.ob(not P.rets, '%s: %s, refuses' % (k0, name), w, 'returns normally although the object owns no %s' % last(want))


def tmpl(f):
    d = f.dem
    m = last(f.name)
    i = d.find(m + '<')
    if i >= 0 and f.name.endswith(m):
        j = d.find('>', i)
        return m + d[i + len(m):j + 1].replace('pe_bliss::', '')
    return m


def iconv(ck, p, f):
    P = heap.Paths(p, f)
    w = where(f)
    bad = set()
    for kind, states in (('returns', [s for _, s in P.rets]), ('throws', P.throws)):
        for s in states:
            opened = [e for e in s.events if e[0] == 'call' and e[1].callee == 'iconv_open']
            for e in opened:
                r = s.env.get(e[1].id)
                if r is None:
                    continue
                closed = [x for x in s.events if x[0] == 'call' and x[1].callee == 'iconv_close' and x[3] and heap_same(x[3][0], r)]
                failed = decide(s, mkcmp('eq', r, C(-1, 64)))
                last_ev = s.events[-1] if s.events else None
                if kind == 'throws' and last_ev is not None and last_ev[0] == 'call' and last_ev[1] is e[1]:
                    continue    # iconv_open itself; it is a C function
                if failed is True and closed:
                    bad.add('a descriptor that could not be opened is closed')
                if failed is not True and len(closed) != 1:
                    bad.add('a descriptor is closed %d times on a path that %s' % (len(closed), kind))
                if failed is None and any(x[0] == 'call' and x[1].callee == 'iconv' for x in s.events):
                    bad.add('the descriptor is used without a check that it could be opened')
    ck.ob(P.complete and not bad, '%s: the conversion descriptor is closed' % last(f.name), w, '; '.join(sorted(bad)) or 'too complex')


def heap_same(a, b):
    return a == b or (a[0] == 'p' and a[1] == ('ref', b) and a[2] == 0)
