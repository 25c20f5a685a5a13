"""Models shared by the loader checks: stream positions, header accessors, section content accessors."""
from .. import ir, post
from ..absint import C, mkptr, off_add, NOFF, tbits
from ..models import newver, slen, sver
from ..build import Broken

PB = 'pe_bliss::pe_base::'


def prog():
    return ir.load('util')


def the(p, name, params=None):
    fs = [f for f in p.named(name) if params is None or len(f.params) == params]
    if len(fs) != 1:
        raise Broken('function %s: %d definitions found' % (name, len(fs)))
    return fs[0]


def lin_sum_safe(e, c, f):
    from .. import lin
    from ..models import on_fact
    on_fact(e, c, f)
    if f[0] in ('true', 'false') and f[1][0] == 'call' and f[1][2] == 'pe_bliss::pe_utils::is_sum_safe':
        s = lin.add(e.lz(c, f[1][3]), e.lz(c, f[1][4]))
        if f[0] == 'true':
            c.add(lin.add(s, lin.const(-0xFFFFFFFF)))
        else:
            c.add(lin.add(lin.const(0x100000000), s, 1, -1))


def models(p):
    sec = post.members(p, 'section')
    raw = post.dict_or(sec, 'raw_data_', 'section raw data member')[0]

    def get_raw(e, st, i, fn, a):
        b, o = e.asptr(a[0])
        r = mkptr(b, off_add(o, raw))
        if not fn.const or True:
            k = ('m', o[0] if not o[1] else o)
            cur = st.mem.get(b, {}).get(k)
            if cur is None or cur[1] != ('raw',):
                newver(e, st, i, r)
                st.mem.setdefault(b, {})[k] = (8, ('raw',))
        return r

    def get_virt(e, st, i, fn, a):
        b, o = e.asptr(a[0])
        r = mkptr(b, off_add(o, raw))
        k = ('m', o[0] if not o[1] else o)
        cur = st.mem.get(b, {}).get(k)
        if cur is None or cur[1] != ('virt', a[1]):
            newver(e, st, i, r)
            st.mem.setdefault(b, {})[k] = (8, ('virt', a[1]))
        return r

    def ntptr(e, st, i, fn, a):
        return mkptr(('obj', ('call', 64, 'nt_headers_ptr', a[0])))

    def fread(e, st, i, fn, a):
        b, o = e.asptr(a[1])
        if b[0] == 'obj' and b[1][:3] == ('call', 64, 'nt_headers_ptr'):
            if not o[1] and o[0] == 0:
                e.havoc(st, b[1][3][1], ('hdr', i.bb, i.idx))
        elif b[0] not in ('str', 'sec'):
            e.havoc(st, b, ('rd', i.bb, i.idx))
        e.havoc(st, e.asptr(a[0])[0], (i.bb, i.idx))
        return a[0]

    def fpos(e, st, i, fn, a):
        if len(a) == 2:
            b, o = e.asptr(a[0])
            e.write(st, b, o, 8, a[1])
            return None
        return NotImplemented

    # a header field behind a getter and setter pair: one memory cell of the image object
    def getter(name):
        def g(e, st, i, fn, a):
            b, o = e.asptr(a[0])
            c = st.mem.get(b, {}).get(('g', name))
            if c is not None:
                return c[1]
            return ('ld', 32, b, (name, ()), e.epoch_of(st, b), 'g')
        return g

    def setter(name):
        def s(e, st, i, fn, a):
            b, o = e.asptr(a[0])
            st.mem.setdefault(b, {})[('g', name)] = (4, a[1])
            return None
        return s

    def insert(e, st, i, fn, a):
        return NotImplemented if a[0][1][0] != 'arg' else ('sym', 64, 'ins', i.bb, i.id)

    return {
        'pe_bliss::section::get_raw_data': get_raw,
        'pe_bliss::section::get_virtual_data': get_virt,
        PB + 'get_nt_headers_ptr': ntptr,
        PB + 'get_number_of_rvas_and_sizes': getter('nrvas'),
        PB + 'set_number_of_rvas_and_sizes': setter('nrvas'),
        'std::istream::read': fread,
        'std::fpos::fpos': fpos,
        'std::map::insert': insert,
        'onfact': lin_sum_safe,
    }


def acc(e, st, name, bits, this, epoch=None):
    """term of a const getter of the image object, evaluated at the epoch of st (or the given one)"""
    b = this[1]
    return ('call', bits, PB + name, this, ((epoch if epoch is not None else e.epoch_of(st, b), None),))


def util(name, bits, *a):
    return ('call', bits, 'pe_bliss::pe_utils::' + name) + tuple(a) + ((),)
