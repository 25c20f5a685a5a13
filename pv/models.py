"""Models of standard-library and repository functions for the abstract interpreter."""
import re
from . import lin
from .absint import C, mkptr, off_add, NOFF, tbits, subst


def elsz(fn):
    m = re.search(r'basic_string<([^,]+),', fn.dem)
    t = m.group(1) if m else 'char'
    return {'char': 1, 'wchar_t': 4, 'unsigned short': 2}.get(t, 1)


def tok(i):
    return ('v', i.bb, i.idx)


# A string object's content version is kept in the pseudo cell ('s', offset) of the object holding it.
def sver(e, st, p, es):
    base, off = e.asptr(p)
    if off[1]:
        return ('sv', base, off, e.epoch_of(st, base))
    c = st.mem.get(base, {}).get(('s', off[0]))
    if c is not None:
        return c[1]
    return ('sv', base, off, e.epoch_of(st, base))


def set_sver(e, st, p, v):
    base, off = e.asptr(p)
    if off[1]:
        e.havoc(st, base, v)
        return
    st.mem.setdefault(base, {})[('s', off[0])] = (8, v)


def slen(ver):
    return ('len', 64, ver)


def sdata(ver, es):
    return mkptr(('str', ver, es))


def m_length(e, st, i, fn, a):
    return slen(sver(e, st, a[0], elsz(fn)))


def m_empty(e, st, i, fn, a):
    return ('cmp', 1, 'eq', slen(sver(e, st, a[0], elsz(fn))), C(0, 64))


def m_data(e, st, i, fn, a):
    return sdata(sver(e, st, a[0], elsz(fn)), elsz(fn))


def m_index(e, st, i, fn, a):
    es = elsz(fn)
    v = sver(e, st, a[0], es)
    if e.hooks:
        e.hooks.index(e, st, i, fn, slen(v), a[1], 'string')
    return mkptr(('str', v, es), off_add(NOFF, 0, a[1], es))


def newver(e, st, i, p, length=None):
    v = tok(i)
    set_sver(e, st, p, v)
    if length is not None:
        st.assume(('eq', slen(v), length))
    return v


def m_resize(e, st, i, fn, a):
    newver(e, st, i, a[0], a[1])
    return None


def m_clear(e, st, i, fn, a):
    newver(e, st, i, a[0], C(0, 64))
    return None


def m_append(e, st, i, fn, a):
    es = elsz(fn)
    if fn.params and fn.params[0].endswith('*') and len(fn.params) == 2:
        if e.hooks:
            b, o = e.asptr(a[1])
            e.hooks.access(e, st, i, b, o, e.mkop('mul', 64, a[2], C(es, 64)), 'copy-src')
    newver(e, st, i, a[0])
    return a[0]


def m_erase(e, st, i, fn, a):
    es = elsz(fn)
    old = slen(sver(e, st, a[0], es))
    n = None
    if len(a) == 3 and a[1][0] != 'p' and a[2] == C((1 << 64) - 1, 64) and e.prove(st, 'ule', a[1], old):
        n = a[1]
    v = newver(e, st, i, a[0], n)
    st.assume(('ule', slen(v), old))
    return a[0] if len(a) == 3 and a[1][0] != 'p' else None


def m_mutate(e, st, i, fn, a):
    newver(e, st, i, a[0])
    return a[0] if fn.name.endswith(('=', 'assign', 'erase', 'insert', 'replace')) else None


def m_assign(e, st, i, fn, a):
    # operator=(const string&) / (string&&) / (const char*) / (char)
    p = fn.params[0] if fn.params else ''
    if 'basic_string' in p:
        es = elsz(fn)
        src = sver(e, st, a[1], es)
        newver(e, st, i, a[0], slen(src))
        return a[0]
    if p.endswith('*') and e.hooks:
        if len(fn.params) == 1:
            e.hooks.cstr(e, st, i, a[1], elsz(fn))
        elif len(fn.params) == 2:
            b, o = e.asptr(a[1])
            e.hooks.access(e, st, i, b, o, e.mkop('mul', 64, a[2], C(elsz(fn), 64)), 'copy-src')
    newver(e, st, i, a[0])
    return a[0]


def m_ctor(e, st, i, fn, a):
    es = elsz(fn)
    ps = fn.params
    if not ps or (len(ps) == 1 and 'allocator' in ps[0] and 'basic_string' not in ps[0]):
        newver(e, st, i, a[0], C(0, 64))
    elif 'basic_string' in ps[0] and len(ps) == 1:
        newver(e, st, i, a[0], slen(sver(e, st, a[1], es)))
    elif ps[0].endswith('*') and len(ps) >= 2 and ps[1] == 'unsigned long':
        if e.hooks:
            b, o = e.asptr(a[1])
            e.hooks.access(e, st, i, b, o, e.mkop('mul', 64, a[2], C(es, 64)), 'copy-src')
        newver(e, st, i, a[0], a[2])
    elif ps[0].endswith('*'):
        if e.hooks:
            e.hooks.cstr(e, st, i, a[1], es)
        newver(e, st, i, a[0], cstrlen(a[1], es))
    elif ps[0] == 'unsigned long' and len(ps) >= 2:
        newver(e, st, i, a[0], a[1])
    else:
        newver(e, st, i, a[0])
    return None


def m_substr(e, st, i, fn, a):
    # sret, this, pos, n : throws out_of_range when pos > size
    es = elsz(fn)
    src = slen(sver(e, st, a[1], es))
    if e.hooks:
        e.hooks.index(e, st, i, fn, src, a[2], 'substr')
    v = newver(e, st, i, a[0])
    st.assume(('ule', slen(v), src))
    return None


def m_at(e, st, i, fn, a):
    es = elsz(fn)
    v = sver(e, st, a[0], es)
    if e.hooks:
        e.hooks.index(e, st, i, fn, slen(v), a[1], 'at')
    st.assume(('ult', a[1], slen(v)))
    return mkptr(('str', v, es), off_add(NOFF, 0, a[1], es))


def m_noop(e, st, i, fn, a):
    return None


# ---- std::vector and its iterators (an iterator is a pointer into ('vec', version) in element units)
def vbase(ver):
    return ('vec', ver)


def velem(ver, idx):
    return mkptr(('obj', ('elem', 64, ver, idx)))


def v_size(e, st, i, fn, a):
    return slen(sver(e, st, a[0], None))


def v_empty(e, st, i, fn, a):
    return ('cmp', 1, 'eq', slen(sver(e, st, a[0], None)), C(0, 64))


def v_begin(e, st, i, fn, a):
    return mkptr(vbase(sver(e, st, a[0], None)))


def v_end(e, st, i, fn, a):
    v = sver(e, st, a[0], None)
    return mkptr(vbase(v), off_add(NOFF, 0, slen(v), 1))


def v_index(e, st, i, fn, a):
    v = sver(e, st, a[0], None)
    if e.hooks:
        e.hooks.index(e, st, i, fn, slen(v), a[1], 'vector')
    return velem(v, a[1])


def v_at(e, st, i, fn, a):
    v = sver(e, st, a[0], None)
    if e.hooks:
        e.hooks.index(e, st, i, fn, slen(v), a[1], 'vector-at')
    st.assume(('ult', a[1], slen(v)))
    return velem(v, a[1])


def v_front(e, st, i, fn, a):
    v = sver(e, st, a[0], None)
    if e.hooks:
        e.hooks.index(e, st, i, fn, slen(v), C(0, 64), 'vector')
    return velem(v, C(0, 64))


def v_back(e, st, i, fn, a):
    v = sver(e, st, a[0], None)
    idx = e.mkop('sub', 64, slen(v), C(1, 64))
    if e.hooks:
        e.hooks.index(e, st, i, fn, slen(v), idx, 'vector')
    return velem(v, idx)


def v_push(e, st, i, fn, a):
    old = slen(sver(e, st, a[0], None))
    newver(e, st, i, a[0], e.mkop('add', 64, old, C(1, 64)))
    return None


def v_clear(e, st, i, fn, a):
    newver(e, st, i, a[0], C(0, 64))


def v_resize(e, st, i, fn, a):
    newver(e, st, i, a[0], a[1])


def v_assign(e, st, i, fn, a):
    newver(e, st, i, a[0], slen(sver(e, st, a[1], None)))
    return a[0]


def v_ctor(e, st, i, fn, a):
    ps = fn.params
    if not ps or (len(ps) == 1 and 'allocator' in ps[0] and not ps[0].startswith('std::vector')):
        newver(e, st, i, a[0], C(0, 64))
    elif len(ps) == 1 and ps[0].startswith('std::vector'):
        newver(e, st, i, a[0], slen(sver(e, st, a[1], None)))
    elif ps[0] == 'unsigned long':
        newver(e, st, i, a[0], a[1])
    else:
        newver(e, st, i, a[0])


def v_erase(e, st, i, fn, a):
    newver(e, st, i, a[0])
    return NotImplemented


def it_val(e, st, p):
    b, o = e.asptr(p)
    t = e.read(st, b, o, 8)
    if t[0] != 'p':
        t = mkptr(('obj', t))
    return t


def it_unit(fn):
    """element stride of the iterator in offset units; 0 when unknown"""
    d = fn.dem
    if 'std::vector<' in d:
        return 1
    m = re.search(r'__normal_iterator<([\w ]+?)(?: const)?\*', d)
    return {'char': 1, 'wchar_t': 4, 'unsigned short': 2}.get(m.group(1) if m else '', 0)


def it_deref(e, st, i, fn, a):
    v = it_val(e, st, a[0])
    if v[1][0] == 'vec':
        idx = e.offterm(v[2])
        if e.hooks:
            e.hooks.index(e, st, i, fn, slen(v[1][1]), idx, 'iterator')
        return velem(v[1][1], idx)
    if v[1][0] == 'str':
        return v
    return NotImplemented


def it_move(sign):
    def m(e, st, i, fn, a):
        v = it_val(e, st, a[0])
        u = it_unit(fn)
        if v[1][0] not in ('vec', 'str') or not u:
            return NotImplemented
        b, o = e.asptr(a[0])
        e.write(st, b, o, 8, mkptr(v[1], off_add(v[2], sign * u)))
        return v if fn.params == ['int'] else a[0]
    return m


def it_plus(sign):
    def m(e, st, i, fn, a):
        v = it_val(e, st, a[0])
        u = it_unit(fn)
        if v[1][0] not in ('vec', 'str') or not u or len(fn.params) != 1:
            return NotImplemented
        return mkptr(v[1], off_add(v[2], 0, a[1], sign * u))
    return m


def it_cmp(op):
    def m(e, st, i, fn, a):
        x, y = it_val(e, st, a[0]), it_val(e, st, a[1])
        if x[1] == y[1] and x[1][0] in ('vec', 'str'):
            return ('cmp', 1, op, e.offterm(x[2]), e.offterm(y[2]))
        if x[1] == y[1] and x[2] == y[2]:
            return C(1 if op == 'eq' else 0, 1)
        return ('cmp', 1, op, x, y)
    return m


def it_diff(e, st, i, fn, a):
    x, y = it_val(e, st, a[0]), it_val(e, st, a[1])
    if x[1] == y[1] and x[1][0] == 'vec':
        return e.mkop('sub', 64, e.offterm(x[2]), e.offterm(y[2]))
    return NotImplemented


def it_ctor(e, st, i, fn, a):
    b, o = e.asptr(a[0])
    if len(a) > 1 and '__normal_iterator' in (fn.params or [''])[0]:
        e.write(st, b, o, 8, it_val(e, st, a[1]))
        return None
    return NotImplemented


def s_begin(e, st, i, fn, a):
    es = elsz(fn)
    return mkptr(('str', sver(e, st, a[0], es), es))


def s_end(e, st, i, fn, a):
    es = elsz(fn)
    v = sver(e, st, a[0], es)
    return mkptr(('str', v, es), off_add(NOFF, 0, slen(v), es))


# ---- pe_base raw access
def tkey(t):
    return t


def sec_key(fn, a):
    """(this, region key, type, header flag) of a call of the section_data_from_rva family (arguments without sret)"""
    ps = fn.params
    this = a[0]
    if ps and 'section' in ps[0] and '&' in ps[0]:
        T = a[3] if len(a) > 3 else C(0, 32)
        return this, ('in', a[1]), a[2], T, C(0, 1)
    if fn.const:
        return this, ('at', a[1]), a[1], a[2], hflag(a[3])
    return this, ('at', a[1]), a[1], C(0, 32), hflag(a[2])


def hflag(t):
    return C(t[1], 1) if t[0] == 'c' else t


def m_secptr(e, st, i, fn, a):
    """section_data_from_rva family returning a raw pointer"""
    this, key, rva, T, h = sec_key(fn, a)
    return mkptr(('sec', this, key, T, h), off_add(NOFF, 0, ('cast', 64, 'zext', 32, rva), 1))


def m_secval(e, st, i, fn, a):
    """typed read: on normal return the whole value lies inside the region"""
    if i.get('sret') is not None:
        return NotImplemented
    this, key, rva, T, h = sec_key(fn, a)
    w = tbits(('op', int(i.get('t')[1:]))) if (i.get('t') or '').startswith('i') else 0
    res = e.default_call(i, st, fn, a)
    if w:
        f = ('inreg', this, key, T, h, rva, C(w // 8, 64))
        st.assume(f)
    return res


def m_seclen(e, st, i, fn, a):
    """remaining length: section_data_length_from_rva(rva, rva_inside, type, headers)"""
    ps = fn.params
    if ps and 'section' in ps[0]:
        return ('call', 32, 'seclen', a[0], ('in', a[1]), a[2], a[3], C(0, 1))
    if len(ps) == 4:
        return ('call', 32, 'seclen', a[0], ('at', a[1]), a[2], a[3], hflag(a[4]))
    return NotImplemented


def secend(c, this, key, T, h):
    end = ('secend', 64, this, key, T, h)
    if end not in c.ranges:
        c.ranges[end] = (0, 1 << 33)
    return end


def side_seclen(e, c, t):
    """S = max(0, END - x): S >= END - x"""
    end = secend(c, t[3], t[4], t[6], t[7])
    x = e.lz(c, t[5])
    s = {t: 1}
    c.add(lin.add(lin.add({end: 1}, x, 1, -1), s, 1, -1))


# ---- sections
def sec_layout(e):
    """byte offset of VirtualAddress inside class section"""
    if 'secva' not in e.opts:
        off = None
        for n, t in e.prog.types.items():
            if n.split('::')[-1] == 'section':
                for m in t['m']:
                    if m[0] == 'header_':
                        off = m[1]
        va = None
        for n, t in e.prog.types.items():
            if n.split('::')[-1] == 'image_section_header':
                for m in t['m']:
                    if m[0] == 'VirtualAddress':
                        va = m[1]
        e.opts['secva'] = None if off is None or va is None else off + va
    return e.opts['secva']


def m_section_from_rva(e, st, i, fn, a):
    res = ('call', 64, 'section_from_rva', a[0], a[1], e.versions(st, a, ['const'] * len(a)))
    off = sec_layout(e)
    if off is not None:
        base = ('obj', res)
        va = e.read(st, base, (off, ()), 4)
        st.assume(('ule', va, a[1]))
    return mkptr(('obj', res))


def tsize(fn):
    """element size of is_null_terminated<T>"""
    d = fn.dem
    if 'is_null_terminated<unsigned short>' in d or 'is_null_terminated<char16' in d:
        return 2
    if 'is_null_terminated<wchar_t>' in d:
        return 4
    return 1


def m_isnt(e, st, i, fn, a):
    es = tsize(fn)
    if e.hooks:
        b, o = e.asptr(a[0])
        e.hooks.access(e, st, i, b, o, a[1], 'scan')
    return ('call', 1, 'is_null_terminated', a[0], a[1], es)


def cstrlen(p, es):
    return ('call', 64, 'cstrlen', p, es)


def on_fact(e, c, f):
    if f[0] == 'inreg':
        end = secend(c, f[1], f[2], f[3], f[4])
        c.add(lin.add(lin.add(e.lz(c, f[5]), e.lz(c, f[6])), {end: 1}, 1, -1))
    if f[0] == 'true' and f[1][0] == 'call' and f[1][2] == 'is_null_terminated':
        p, n, es = f[1][3], f[1][4], f[1][5]
        k = cstrlen(p, es)
        e.atom(c, k)
        # es * (strlen + 1) <= n
        c.add(lin.add({k: es, 1: es}, e.lz(c, n), 1, -1))


def base_models():
    m = {
        'onfact': on_fact,
        'pe_bliss::pe_utils::is_null_terminated': m_isnt,
        'std::basic_string::length': m_length,
        'std::basic_string::size': m_length,
        'std::basic_string::empty': m_empty,
        'std::basic_string::data': m_data,
        'std::basic_string::c_str': m_data,
        'std::basic_string::operator[]': m_index,
        'std::basic_string::at': m_at,
        'std::basic_string::resize': m_resize,
        'std::basic_string::clear': m_clear,
        'std::basic_string::append': m_append,
        'std::basic_string::assign': m_assign,
        'std::basic_string::operator=': m_assign,
        'std::basic_string::operator+=': m_mutate,
        'std::basic_string::erase': m_erase,
        'std::basic_string::basic_string': m_ctor,
        'std::basic_string::substr': m_substr,
        'std::basic_string::reserve': m_noop,
        'std::vector::size': v_size,
        'std::vector::empty': v_empty,
        'std::vector::begin': v_begin,
        'std::vector::cbegin': v_begin,
        'std::vector::end': v_end,
        'std::vector::cend': v_end,
        'std::vector::operator[]': v_index,
        'std::vector::at': v_at,
        'std::vector::front': v_front,
        'std::vector::back': v_back,
        'std::vector::push_back': v_push,
        'std::vector::emplace_back': v_push,
        'std::vector::clear': v_clear,
        'std::vector::resize': v_resize,
        'std::vector::operator=': v_assign,
        'std::vector::vector': v_ctor,
        'std::vector::erase': v_erase,
        'std::vector::reserve': m_noop,
        '__gnu_cxx::__normal_iterator::operator*': it_deref,
        '__gnu_cxx::__normal_iterator::operator->': it_deref,
        '__gnu_cxx::__normal_iterator::operator++': it_move(1),
        '__gnu_cxx::__normal_iterator::operator--': it_move(-1),
        '__gnu_cxx::__normal_iterator::operator+': it_plus(1),
        '__gnu_cxx::__normal_iterator::operator-': it_plus(-1),
        '__gnu_cxx::operator-': it_diff,
        '__gnu_cxx::operator!=': it_cmp('ne'),
        '__gnu_cxx::operator==': it_cmp('eq'),
        '__gnu_cxx::__normal_iterator::__normal_iterator': it_ctor,
        'std::basic_string::begin': s_begin,
        'std::basic_string::end': s_end,
        'std::allocator::allocator': m_noop,
        'std::allocator::~allocator': m_noop,
        'std::__new_allocator::~__new_allocator': m_noop,
        'std::__new_allocator::__new_allocator': m_noop,
        'pe_bliss::pe_base::section_data_length_from_rva': m_seclen,
        'side:seclen': side_seclen,
        'pe_bliss::pe_base::section_from_rva': m_section_from_rva,
    }

    def secptr(e, st, i, fn, a):
        if i.get('sret') is not None:
            return NotImplemented
        if not (i.get('t') == 'ptr'):
            return m_secval(e, st, i, fn, a)
        return m_secptr(e, st, i, fn, a)
    m['pe_bliss::pe_base::section_data_from_rva'] = secptr
    return m
