"""Address conversions: VA <-> RVA <-> file offset, and the section that an address belongs to."""
from .. import ir, post, lin
from ..absint import C, tbits, mkptr
from ..build import Broken
from ..summ import Sum, Layout, fns, truth, modlin, cases, refuted

PB = 'pe_base::'
SEC = 'section::'
LO = 0xffffffff


def one(p, name, ptypes=None, const=None):
    return [f for f in fns(p, name, ptypes, const)]


def le(e, st, terms, k):
    """the fact sum(coef * term) + k <= 0 over the integers"""
    c = e.ctx(st.node)
    l = lin.const(k)
    for n, t in terms:
        l = lin.add(l, e.lz(c, t), 1, n)
    return ('lin', tuple(sorted(l.items(), key=repr)))


def va(ck, kind):
    mode = 'f%d' % kind
    p = ir.load(mode)
    L = Layout(p)
    off, size = L.at('image_optional_header%d' % kind, 'ImageBase')
    off += L.at('image_nt_headers%d' % kind, 'OptionalHeader')[0]
    n = 0

    def base(s):
        """the term of the image base in this summary"""
        ts = set()

        def walk(t):
            if isinstance(t, tuple):
                if t and t[0] == 'ld' and t[1] == 8 * size and t[4] == 'init' and t[2][0] == 'obj' and not t[3][1] and t[3][0] in offs:
                    ts.add(t)
                for x in t:
                    walk(x)
        for v, st, i in s.rets:
            walk(v)
            for f in st.node.facts():
                walk(f)
            for b, c in st.mem.items():
                for k, x in c.items():
                    walk(x[1])
        for i, st in s.throws:
            for f in st.node.facts():
                walk(f)
        return ts.pop() if len(ts) == 1 else None
    props = 'pe_bliss::pe_properties_generic'
    hdr = [t for q, t in L.by.items() if q.startswith('pe_properties_generic') or q.startswith(props)]
    offs = set(m[1] + off for t in hdr for m in t['m'] if m[0] == 'nt_headers_')
    if not offs:
        raise Broken('P27: headers member not found')
    for f in one(p, PB + 'va_to_rva'):
        n += 1
        s = Sum(p, f, {2: C(0, 1)})
        B = base(s)
        key = 'va_to_rva(%s) PE%d' % (f.params[0], kind)
        V = s.e.argterm(f.args[1]['id'])
        good = B is not None and s.never_throws() and bool(s.rets)
        want = None
        if good:
            want = modlin(s.e, ('op', 64, 'sub', s.e.mkcast('zext', 32, 64, V) if tbits(V) == 32 else V, s.e.mkcast('zext', 32, 64, B) if size == 4 else B), 32)
            good = all(modlin(s.e, v, 32) == want for v, q in s.cases())
        ck.ob(good, key + ' value', f.where, 'the unchecked conversion is not the address less the image base')
        s = Sum(p, f)
        ck.ob(B is not None and bool(s.rets) and all(modlin(s.e, v, 32) == want for v, q in s.cases()), key + ' checked value', f.where, 'the conversion is not the address less the image base')
        if B is None:
            continue
        bad = []
        for nm, out, lst in (('below the image base', True, ((1, V), (-1, B), 1)),
                             ('4 GB or more above the image base', True, ((1, B), (-1, V), LO + 1)),
                             ('inside', False, None)):
            def asm(e, st):
                if out:
                    # an image base in the upper half of the address space is outside every address space
                    return [le(e, st, lst[:2], lst[2]), le(e, st, ((1, B),), 1 - (1 << 63))]
                return [le(e, st, ((1, B), (-1, V)), 0), le(e, st, ((1, V), (-1, B)), -LO)]
            s = Sum(p, f, {2: C(1, 1)}, asm, opts={'wrap': True})
            if s.e.impossible(s.e.ins0) if hasattr(s.e, 'ins0') else False:
                continue
            if out and s.rets or not out and (s.throws or not s.rets):
                bad.append(nm)
        ck.ob(not bad, key + ' range', f.where, 'the range check decides wrongly for addresses %s' % ', '.join(bad))
    for name in ('rva_to_va_32', 'rva_to_va_64', 'rva_to_va'):
        for f in one(p, PB + name):
            n += 1
            ref = f.params[1:] and '&' in f.params[1]
            w = 64 if name.endswith('_64') or ref and ('long' in f.params[1] or '64' in f.params[1]) else 32
            s = Sum(p, f)
            B = base(s)
            key = '%s(%s) PE%d' % (name, ', '.join(f.params), kind)
            if B is None:
                ck.ob(False, key + ' value', f.where, 'does not use the image base')
                continue
            V = s.e.argterm(f.args[1]['id'])
            z = lambda t, b: s.e.mkcast('zext', b, 64, t) if b < 64 else t
            want = modlin(s.e, ('op', 64, 'add', z(V, 32), z(B, 8 * size)), w)
            vals = []
            if ref:
                for v, st, i in s.rets:
                    vals += cases(s.e, st, s.cell(st, ('arg', 2), 0, w // 8))
            else:
                vals = s.cases()
            ck.ob(bool(vals) and all(v is not None and modlin(s.e, v, w) == want for v, q in vals), key + ' value', f.where, 'the conversion is not the relative address plus the image base')
            if w == 64:
                ck.ob(s.never_throws(), key + ' range', f.where, 'refuses some address')
            elif kind == 32:
                bad = []
                for nm, out in (('beyond 4 GB', True), ('below 4 GB', False)):
                    s2 = Sum(p, f, assume=lambda e, st: [le(e, st, ((-1, V), (-1, B)), LO + 1) if out else le(e, st, ((1, V), (1, B)), -LO)])
                    if out and s2.rets or not out and (s2.throws or not s2.rets):
                        bad.append(nm)
                ck.ob(not bad, key + ' range', f.where, 'the range check decides wrongly for sums %s' % ', '.join(bad))
    return n


def delegates(ck, p):
    """every function of virtual addresses hands them, converted with range check, to its namesake for relative addresses"""
    n = 0
    fam = sorted((f for f in p.repo_fns() if f.short.startswith(PB) and f.short.split('::')[-1].split('<')[0] in
                  ('section_data_from_va', 'section_data_length_from_va', 'section_from_va', 'section_and_offset_from_va')), key=lambda f: f.name)
    for f in fam:
        n += 1
        name = f.short.split('::')[-1].split('<')[0]
        twin = name.replace('_va', '_rva')
        s = Sum(p, f)
        key = '%s(%s)%s' % (f.short.split('::')[-1], ', '.join(x.replace('pe_bliss::', '') for x in f.params), ' const' if f.const else '')
        conv = {}
        bad = None
        for i, fn, a, res, st in s.results:
            if fn is not None and fn.short == PB + 'va_to_rva' and len(a) == 3 and res is not None:
                q = post.Q(s.e, st)
                conv[res] = (a[1], a[2] == C(1, a[2][2]) if a[2][0] == 'c' else q.true(a[2]))
        calls = [(fn, a, res) for i, fn, a, res, st in s.results if fn is not None and fn.short.startswith(PB) and fn.short.split('::')[-1].split('<')[0] in (twin, name)]
        args = [s.e.argterm(x['id']) for x in f.args if not x.get('sret')]
        struct = [k for k, x in enumerate(f.args) if x.get('sret')]

        def strip(t):
            while t[0] == 'cast' and t[2] in ('zext', 'sext', 'trunc'):
                t = t[4]
            return t

        def isva(k):
            return 'va' == k[:2]
        rets = [x for v, st, i in s.rets for x in cases(s.e, st, v)]
        if not calls:
            bad = 'does not hand over to %s' % twin
        for fn, a, res in calls:
            src = list(s.e.argterm(x['id']) for x in f.args)
            if len(a) != len(src):
                bad = 'hands over a different number of arguments'
                break
            for k, (x, y) in enumerate(zip(a, src)):
                if x == y and (fn.short.split('::')[-1].split('<')[0] == name or not scalar_va(f, k)):
                    continue
                if not scalar_va(f, k):
                    if s.e.asptr(x) == s.e.asptr(y) if tbits(y) == 64 and y[0] != 'arg' or x[0] == 'p' else strip(x) == strip(y):
                        continue
                    bad = 'argument %d is not handed over' % k
                elif fn.short.split('::')[-1].split('<')[0] == name:
                    if x[0] == 'cast' and x[2] == 'zext' and x[4] == y:
                        continue
                    bad = 'argument %d is not handed over' % k
                elif x not in conv or conv[x][0] != y and not (conv[x][0][0] == 'cast' and conv[x][0][2] == 'zext' and conv[x][0][4] == y):
                    bad = 'address %d is not converted' % k
                elif not conv[x][1]:
                    bad = 'address %d is converted without range check' % k
        if not bad and rets and rets[0][0] is not None and not struct:
            rs = set(s.e.asptr(res) if res is not None and tbits(res) == 64 else res for fn, a, res in calls)
            if any((s.e.asptr(v) if tbits(v) == 64 else v) not in rs for v, q in rets):
                bad = 'does not return what %s returns' % twin
        ck.ob(not bad, key, f.where, bad or '')
    return n


def scalar_va(f, k):
    """is the IR argument k an address (an integer wider than a flag)"""
    d = f.args[k]
    off = len(f.args) - len(f.params)
    t = f.params[k - off] if k >= off else ''
    return t in ('unsigned int', 'unsigned long', 'uint32_t', 'uint64_t', 'unsigned long long')


def raw(e, st, i, fn, a):
    return mkptr(('obj', ('call', 64, 'raw', a[0])))


MODELS = {'pe_bliss::section::get_raw_data': raw}


def inside(ck, p):
    """membership of an address in a section"""
    n = 0
    GV, GA = SEC + 'get_virtual_address', SEC + 'get_aligned_virtual_size'

    def getters(s):
        va_, av = {}, {}
        for i, fn, a, res, st in s.results:
            if fn is None or res is None:
                continue
            if fn.short == GV:
                va_.setdefault(s.e.asptr(a[0]), res)
            elif fn.short == GA:
                al = a[1]
                if al[0] == 'call' and al[2].endswith(PB + 'get_section_alignment'):
                    av.setdefault(s.e.asptr(a[0]), res)
        return va_, av

    def member(s, st, X, R, va_, av):
        """facts say VA(X) <= R < VA(X) + AV(X) (modulo 2^32)"""
        if X not in va_ or X not in av:
            return False
        q = post.Q(s.e, st)
        e = s.e
        v, a = va_[X], av[X]
        if not q.ule(v, R):
            return False
        if q.ult(R, e.mkop('add', 32, v, a)) or q.ult(e.mkop('sub', 32, R, v), a):
            return True
        c = e.ctx(st.node)
        # under the loader's guarantee that the sum does not wrap
        u = q.under([le(e, st, ((1, v), (1, a)), -LO)])
        c = e.ctx(u.st.node)
        return c.entails(lin.add(lin.add(lin.add(e.lz(c, R), e.lz(c, v), 1, -1), e.lz(c, a), 1, -1), lin.const(1)))

    for f in fns(p, PB + 'section_from_rva'):
        s = Sum(p, f)
        va_, av = getters(s)
        R = s.e.argterm(f.args[1]['id'])
        rets = s.cases()
        key = 'section_from_rva%s' % (' const' if f.const else '')
        if not va_ or not rets or any(elem(s.e.asptr(v)) is None for v, q in rets):
            ck.count('searches of another form, not decided')
            continue
        n += 1
        bad = [v for v, q in rets if not member(s, q.st, s.e.asptr(v), R, va_, av)]
        ck.ob(not bad, key + ' returns a section containing the address', f.where, 'can return a section that does not contain the address')
        # a section passed over does not contain the address
        ok = bool(s.throws)
        seen = 0
        whole = True
        e = s.e
        for X in va_:
            if X not in av or elem(X) is None:
                continue
            sv, idx = elem(X)
            ln = ('len', 64, sv)
            for h in e.cfg.loops:
                if idx[0] != 'phi' or idx[2] != h:
                    continue
                for pb in e.cfg.pred[h]:
                    if (pb, h) not in e.out:
                        continue
                    st = e.out[(pb, h)]
                    val = incoming(e, idx, h, pb)
                    if pb not in e.cfg.loops[h]:
                        if val is None or not (val == C(0, 64) or post.Q(e, st).eq(val, C(0, 64))):
                            whole = False
                        continue
                    seen += 1
                    nxt = modlin(e, e.mkop('add', 64, idx, C(1, 64)), 64)
                    if val is None or any(modlin(e, x, 64) != nxt for x, q in cases(e, st, val, bb=pb)):
                        whole = False
                    vv, aa = va_[X], av[X]
                    u = post.Q(e, st).under([('ule', vv, R), ('ult', R, e.mkop('add', 32, vv, aa)), le(e, st, ((1, vv), (1, aa)), -LO), le(e, st, ((1, R), (-1, vv), (-1, aa)), 1)])
                    if not refuted(e, u):
                        ok = False
                for i, st in s.throws:
                    if not refuted(e, post.Q(e, st).under([('ult', idx, ln)])):
                        whole = False
        if not seen:
            ck.count('searches of another form, not decided')
            continue
        ck.ob(ok, key + ' passes over no section containing the address', f.where, 'can pass over a section that contains the address')
        ck.count('loop continuations examined', seen)
        ck.ob(whole, key + ' looks at every section', f.where, 'can give up without looking at every section')
    # pointers and lengths relative to a named section
    for name in ('section_data_from_rva', 'section_data_length_from_rva'):
        for f in fns(p, PB + name):
            if 'section' not in f.params[0]:
                continue
            n += 1
            s = Sum(p, f, models=MODELS)
            va_, av = getters(s)
            R = s.e.argterm(f.args[2]['id'])
            X = s.e.asptr(s.e.argterm(f.args[1]['id']))
            key = '%s(section)%s' % (name, ' const' if f.const else '')
            bad = [st for v, st, i in s.rets if not member(s, st, X, R, va_, av)]
            ck.ob(s.rets and not bad, key + ' membership', f.where, 'accepts an address outside the section')
            bad = False
            for i, st in s.throws:
                if X in va_ and X in av:
                    vv, aa = va_[X], av[X]
                    q = post.Q(s.e, st).under([('ule', vv, R), ('ult', R, s.e.mkop('add', 32, vv, aa)), le(s.e, st, ((1, vv), (1, aa)), -LO), le(s.e, st, ((1, R), (-1, vv), (-1, aa)), 1)])
                    if not refuted(s.e, q) and not emptied(s, st):
                        bad = True
            ck.ob(not bad, key + ' refusal', f.where, 'refuses an address inside the section')
    return n


def emptied(s, st):
    """the refusal is for a section without data"""
    q = post.Q(s.e, st)
    for i, fn, a, res, st2 in s.results:
        if fn is not None and fn.short.endswith('::empty') and res is not None and q.true(res):
            return True
    for f in st.node.facts():
        if f[0] in ('eq', 'ule') and any(x[0] == 'len' for x in f[1:] if isinstance(x, tuple)) and C(0, 64) in f:
            return True
    return False


def elem(X):
    """(vector version, index) of a pointer to an element"""
    b, o = X
    if b[0] == 'obj' and b[1][0] == 'elem' and o == (0, ()):
        return b[1][2], b[1][3]
    return None


def incoming(e, t, h, pb):
    """the value of the loop variable t that comes in from block pb"""
    if len(t) == 4:
        for p, v, node in e.loop_phi.get(t, []):
            if p == pb:
                return v
        return None
    st = e.out[(pb, h)]
    base, key = t[3], t[4]
    c = st.mem.get(base, {}).get(key)
    if c is None:
        return None
    b, o = e.asptr(c[1])
    if t[-1] != 'off':
        return c[1]
    r = C(o[0] & ((1 << 64) - 1), 64)
    for x, k in o[1]:
        r = e.mkop('add', 64, r, x if k == 1 else e.mkop('mul', 64, x, C(k & ((1 << 64) - 1), 64)))
    return r


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


def offsets(ck, p):
    n = 0
    for f in fns(p, PB + 'rva_to_file_offset'):
        n += 1
        s = Sum(p, f)
        R = s.e.argterm(f.args[1]['id'])
        hs = [res for i, fn, a, res, st in s.results if fn is not None and fn.short == PB + 'get_size_of_headers']
        secs = [(a, res) for i, fn, a, res, st in s.results if fn is not None and fn.short == PB + 'section_from_rva' and a[1] == R]
        bad = trans(s, R, hs, secs, 'get_pointer_to_raw_data', 'get_virtual_address')
        ck.ob(not bad, 'rva_to_file_offset', f.where, bad or '')
    for f in fns(p, PB + 'file_offset_to_rva'):
        n += 1
        s = Sum(p, f)
        R = s.e.argterm(f.args[1]['id'])
        hs = [res for i, fn, a, res, st in s.results if fn is not None and fn.short == PB + 'get_size_of_headers']
        secs = None
        bad = trans(s, R, hs, secs, 'get_virtual_address', 'get_pointer_to_raw_data')
        if not bad and not any(fn is not None and fn.short in (PB + 'file_offset_to_section', PB + 'section_from_file_offset') and a[1] == R for i, fn, a, res, st in s.results):
            bad = 'the section is not the one the file offset belongs to'
        ck.ob(not bad, 'file_offset_to_rva', f.where, bad or '')
    for f in fns(p, PB + 'rva_from_section_offset'):
        n += 1
        s = Sum(p, f)
        k = len(f.args) - 2
        X, O = s.e.argterm(f.args[k]['id']), s.e.argterm(f.args[k + 1]['id'])
        g = [res for i, fn, a, res, st in s.results if fn is not None and fn.short == SEC + 'get_virtual_address' and s.e.asptr(a[0]) == s.e.asptr(X)]
        ok = s.never_throws() and s.rets and g and all(modlin(s.e, v, 32) == modlin(s.e, ('op', 32, 'add', g[0], O), 32) for v, q in s.cases())
        ck.ob(ok, 'rva_from_section_offset', f.where, 'is not the address of the section plus the offset')
    for f in fns(p, PB + 'section_and_offset_from_rva'):
        n += 1
        s = Sum(p, f)
        R = s.e.argterm(f.args[-1]['id'])
        ok = False
        secs = [(a, res) for i, fn, a, res, st in s.results if fn is not None and fn.short == PB + 'section_from_rva' and a[1] == R]
        if secs:
            X = s.e.asptr(secs[0][1])
            g = [res for i, fn, a, res, st in s.results if fn is not None and fn.short == SEC + 'get_virtual_address' and s.e.asptr(a[0]) == X]
            want = modlin(s.e, ('op', 32, 'sub', R, g[0]), 32) if g else None
            ok = want is not None and pairhas(s, want, X)
        ck.ob(ok, 'section_and_offset_from_rva', f.where, 'does not give the containing section and the distance from its start')
    # membership of a file offset
    for f in fns(p, 'section_by_raw_offset::operator()'):
        n += 1
        s = Sum(p, f)
        X = s.e.asptr(s.e.argterm(f.args[1]['id']))
        g = dict((fn.short.split('::')[-1], res) for i, fn, a, res, st in s.results if fn is not None and a and s.e.asptr(a[0]) == X)
        O = ('ld', 32, ('arg', 0), (0, ()), 'init', 'v')
        P, Z = g.get('get_pointer_to_raw_data'), g.get('get_size_of_raw_data')
        ok = P is not None and Z is not None and s.never_throws() and bool(s.rets)
        if ok:
            for nm, want, asm in (('inside', 'yes', [((1, P), (-1, O), 0), ((1, O), (-1, P), (-1, Z), 1)]), ('below', 'no', [((1, O), (-1, P), 1)]), ('above', 'no', [((1, P), (1, Z), (-1, O), 0)])):
                fs = lambda e, st: [le(e, st, x[:-1], x[-1]) for x in asm + [((1, P), (1, Z), -LO)]]
                s2 = Sum(p, f, assume=fs)
                if not s2.rets or any(truth(s2.e, st, v) != want for v, st, i in s2.rets):
                    ok = False
        ck.ob(ok, 'section_by_raw_offset', f.where, 'does not hold exactly for the offsets from the section start to its end')
    fp = ir.load('f32')
    for f in fns(fp, PB + 'file_offset_to_section'):
        n += 1
        s = Sum(fp, f)
        key = 'file_offset_to_section%s' % (' const' if f.const else '')
        find = [(a, res) for i, fn, a, res, st in s.results if fn is not None and 'find_if' in fn.short]
        if not find:
            ck.count('file offset searches of another form, not decided')
            continue
        O = s.e.argterm(f.args[1]['id'])
        ok = True
        for a, res in find:
            vec = [x for x in a if x[0] == 'p' and x[1][0] == 'vec']
            ok = ok and len(vec) >= 2 and vec[0][2] == (0, ()) and len(vec[1][2][1]) == 1 and vec[1][2][0] == 0 and vec[1][2][1][0][0][0] == 'len'
            ok = ok and a[2] == O
        rets = s.cases()
        end = s.e.asptr(find[0][0][1])
        for v, q in rets:
            ok = ok and v is not None and s.e.asptr(v) in [s.e.asptr(r) for a, r in find]
            ok = ok and any(x[0] == 'pne' and set(s.e.asptr(y) for y in x[1:3]) == {s.e.asptr(v), end} for x in q.facts())
        for i, st in s.throws:
            fs = st.node.facts()
            ok = ok and not any(x[0] == 'pne' and end in [s.e.asptr(y) for y in x[1:3]] for x in fs)
        ck.ob(ok and rets and s.throws, key, f.where, 'does not search the whole section list for the offset')
    for f in fns(p, PB + 'section_from_file_offset'):
        n += 1
        s = Sum(p, f)
        O = s.e.argterm(f.args[1]['id'])
        ok = any(fn is not None and fn.short == PB + 'file_offset_to_section' and a[1] == O for i, fn, a, r, st in s.results)
        ck.ob(ok and s.rets, 'section_from_file_offset%s' % (' const' if f.const else ''), f.where, 'does not look up the given offset')
    return n


def pairhas(s, want, X):
    for v, st, i in s.rets:
        offs, sec = False, False
        for t, q in (cases(s.e, st, v) if v is not None else []):
            pass
        vals = [v] if v is not None else []
        for i2, fn, a, st2 in s.all:
            if fn is not None and fn.short == 'std::make_pair':
                for x in a:
                    b, o = s.e.asptr(x)
                    vals += [y[1] for k, y in st2.mem.get(b, {}).items() if k[0] == 'v']
        for b, c in st.mem.items():
            for k, x in c.items():
                if k[0] == 'v':
                    vals.append(x[1])
        def walk(t):
            r = []
            if isinstance(t, tuple) and t and t[0] == 'agg':
                for x in t[1:]:
                    if isinstance(x, tuple):
                        r += walk(x)
            r.append(t)
            return r
        allv = [y for x in vals for y in walk(x)]
        for x in allv:
            try:
                b = tbits(x)
            except Exception:
                continue
            if b >= 32 and modlin(s.e, x, 32) == want:
                offs = True
            if b == 64 and x[0] in ('p', 'call') and s.e.asptr(x) == X:
                sec = True
        if not (offs and sec):
            return False
    return bool(s.rets)


def trans(s, R, hs, secs, plus, minus):
    """headers map to themselves; otherwise R + plus(section) - minus(section)"""
    if not hs:
        return 'does not treat the headers'
    H = hs[0]
    some = [False, False]
    for v, q in s.cases():
        in_ = q.ult(R, H)
        out = q.ule(H, R)
        if not in_ and not out:
            return 'does not tell header addresses from section addresses'
        m = modlin(s.e, v, 32)
        if in_:
            some[0] = True
            if m != modlin(s.e, R, 32):
                return 'an address inside the headers is not kept'
        else:
            some[1] = True
            ok = False
            get = {}
            for i, fn, a, res, st in s.results:
                if fn is not None and fn.short in (SEC + plus, SEC + minus) and res is not None:
                    get.setdefault(s.e.asptr(a[0]), {})[fn.short.split('::')[-1]] = res
            xs = [s.e.asptr(r) for a, r in secs] if secs is not None else list(get)
            have = {}
            for X in list(get):
                for k, r in get[X].items():
                    if secs is None or X in xs:
                        have.setdefault(k, []).append(r)
            for a in have.get(plus, []):
                for b in have.get(minus, []):
                    if m == modlin(s.e, ('op', 32, 'sub', ('op', 32, 'add', R, a), b), 32):
                        ok = True
            if not ok:
                return 'an address inside a section is not moved by the difference of raw and virtual start'
    if not all(some):
        return 'one of the two cases is missing'
    return None


def run(ck):
    n = va(ck, 32) + va(ck, 64)
    p = ir.load('acc')
    m = delegates(ck, p)
    k = inside(ck, p) + offsets(ck, p)
    if n < 8 or m < 8 or k < 6:
        pass
    ck.count('conversions between VA and RVA', n)
    ck.count('functions of virtual addresses', m)
    ck.count('lookups and file offset conversions', k)
    ck.level = 'proof'
    ck.trusted = ['clang 18 front end and inliner', 'pv/absint.py, pv/summ.py', 'std::find_if']
    ck.explanation = ('Results are compared as linear combinations modulo 2^32 or 2^64 of the address, the image base and the section header fields; range checks and membership tests are decided by linear arithmetic '
                      'for each side of each boundary; functions of virtual addresses must hand the converted address to their namesake.')
