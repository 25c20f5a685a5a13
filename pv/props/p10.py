"""Header accessors read and write exactly the header fields they name, for both image kinds."""
from .. import ir, post
from ..absint import C, mkptr, tbits
from ..build import Broken
from ..summ import Sum, Layout, fns, truth

O = 'OptionalHeader.'
H = 'FileHeader.'
# accessor stem -> field
RW = {
    'ep': O + 'AddressOfEntryPoint', 'subsystem': O + 'Subsystem', 'number_of_rvas_and_sizes': O + 'NumberOfRvaAndSizes',
    'characteristics': H + 'Characteristics', 'dll_characteristics': O + 'DllCharacteristics', 'checksum': O + 'CheckSum',
    'time_date_stamp': H + 'TimeDateStamp', 'machine': H + 'Machine', 'base_of_code': O + 'BaseOfCode',
}
RO = {
    'minor_os_version': O + 'MinorOperatingSystemVersion', 'major_os_version': O + 'MajorOperatingSystemVersion',
    'minor_subsystem_version': O + 'MinorSubsystemVersion', 'major_subsystem_version': O + 'MajorSubsystemVersion',
    'file_alignment': O + 'FileAlignment', 'section_alignment': O + 'SectionAlignment', 'size_of_image': O + 'SizeOfImage',
    'size_of_headers': O + 'SizeOfHeaders', 'size_of_optional_header': H + 'SizeOfOptionalHeader', 'pe_signature': 'Signature',
    'magic': O + 'Magic', 'number_of_sections': H + 'NumberOfSections',
    'image_base_32': O + 'ImageBase', 'image_base_64': O + 'ImageBase',
}
WO = {'size_of_headers': H and O + 'SizeOfHeaders', 'size_of_optional_header': H + 'SizeOfOptionalHeader', 'number_of_sections': H + 'NumberOfSections',
      'size_of_image': O + 'SizeOfImage', 'file_alignment_unchecked': O + 'FileAlignment', 'image_base': O + 'ImageBase', 'image_base_64': O + 'ImageBase'}
BOTH = {'heap_size_commit': 'SizeOfHeapCommit', 'heap_size_reserve': 'SizeOfHeapReserve', 'stack_size_commit': 'SizeOfStackCommit', 'stack_size_reserve': 'SizeOfStackReserve'}
HAS = {'has_imports': 1, 'has_exports': 0, 'has_resources': 2, 'has_security': 4, 'has_tls': 9, 'has_config': 10, 'has_bound_import': 11,
       'has_delay_import': 13, 'is_dotnet': 14, 'has_exception_directory': 3, 'has_debug': 6}
CLS = {'f32': 'image_nt_headers32', 'f64': 'image_nt_headers64'}
MAGIC = {'f32': 0x10b, 'f64': 0x20b}


class Ctx(object):
    def __init__(self, ck, mode):
        self.ck = ck
        self.mode = mode
        self.p = ir.load(mode)
        self.L = Layout(self.p)
        po = self.L.at('pe_bliss::pe_base', 'props_')[0]
        self.props = ('obj', ('ld', 64, ('arg', 0), (po, ()), 'init', 'v'))
        nt = [t for n, t in self.p.types.items() if 'pe_properties_generic' in n and CLS[mode] in n]
        if len(nt) != 1:
            raise Broken('P10: property class for %s not found' % mode)
        self.nt = [m for m in nt[0]['m'] if m[0] == 'nt_headers_'][0][1]
        self.n = 0

    def field(self, path):
        o, s = self.L.at(CLS[self.mode], path)
        return self.nt + o, s

    def ld(self, path):
        o, s = self.field(path)
        return ('ld', s * 8, self.props, (o, ()), 'init', 'v')

    def one(self, name, ptypes=None):
        f = fns(self.p, 'pe_base::' + name, ptypes)
        if len(f) != 1:
            raise Broken('P10: %d definitions of pe_base::%s' % (len(f), name))
        self.n += 1
        return f[0]

    def ob(self, ok, f, key, msg):
        self.ck.ob(ok, 'PE32%s %s' % ('' if self.mode == 'f32' else '+', key), f.where, msg)

    def clean(self, s, st, allowed):
        """nothing but the allowed cells of the header object is changed"""
        for b, ep in st.epoch.items():
            if b[0] != 'alloca' and ep != 'init':
                return False
        for b, cells in st.mem.items():
            if b[0] == 'alloca':
                continue
            for k, v in cells.items():
                if k[0] != 'v':
                    continue
                if b != self.props or (k[1], v[0]) not in allowed:
                    init = ('ld', v[0] * 8, b, (k[1], ()), 'init', 'v')
                    if v[1] != init:
                        return False
        return True


def conv(e, t, bits):
    n = tbits(t)
    return t if n == bits else e.mkcast('zext' if n < bits else 'trunc', n, bits, t)


def getter(c, f, key, path, bits=None):
    s = Sum(c.p, f)
    ok = len(s.rets) == 1 and not s.throws and not s.effects
    if ok:
        v, st, i = s.rets[0]
        want = conv(s.e, c.ld(path), tbits(v) if v is not None else 0)
        ok = v is not None and (v == want or post.Q(s.e, st).eq(v, want)) and c.clean(s, st, ())
    c.ob(ok, f, key, 'does not return %s, or changes the image' % path)


def setter(c, f, key, writes):
    s = Sum(c.p, f)
    ok = len(s.rets) == 1 and not s.throws
    if ok:
        v, st, i = s.rets[0]
        allowed = set()
        for path, val in writes:
            o, sz = c.field(path)
            allowed.add((o, sz))
            want = val(s.e, st)
            want = conv(s.e, want, sz * 8)
            got = s.e.read(st, c.props, (o, ()), sz)
            ok = ok and (got == want or post.Q(s.e, st).eq(got, want))
        ok = ok and c.clean(s, st, allowed)
    c.ob(ok, f, key, 'does not store its argument in %s, or changes something else' % ', '.join(w[0] for w in writes))


def arg(c, f, k):
    return lambda e, st: e.argterm(f.args[k]['id'])


def run(ck):
    for mode in ('f32', 'f64'):
        one(ck, mode)
    ck.level = 'proof'
    ck.trusted = ['clang 18 front end and inliner', 'pv/absint.py, pv/summ.py']
    ck.explanation = ('Each accessor of an image is analysed with the virtual call resolved to each of the two header classes; the returned term, the set of stored cells and their values must be '
                      'exactly those of the header field in the table, and nothing else may change.')


def one(ck, mode):
    c = Ctx(ck, mode)
    for n, path in sorted(list(RW.items()) + list(RO.items())):
        getter(c, c.one('get_' + n), 'get_' + n, path)
    for n, path in sorted(list(RW.items()) + list(WO.items())):
        f = c.one('set_' + n)
        setter(c, f, 'set_' + n, [(path, arg(c, f, 1))])
    for n, fld in sorted(BOTH.items()):
        for b, t in ((32, 'unsigned int'), (64, 'unsigned long')):
            f = c.one('set_' + n, (t,))
            setter(c, f, 'set_%s(%d)' % (n, b), [(O + fld, arg(c, f, 1))])
            getter(c, c.one('get_%s_%d' % (n, b)), 'get_%s_%d' % (n, b), O + fld)
    for n, fld in sorted(list(BOTH.items()) + [('image_base', 'ImageBase')]):
        for b, t in ((32, 'unsigned int&'), (64, 'unsigned long&')):
            f = c.one('get_' + n, (t,))
            s = Sum(c.p, f)
            ok = len(s.rets) == 1 and not s.throws
            for v, st, i in s.rets:
                got = s.e.read(st, ('arg', 1), (0, ()), b // 8)
                want = conv(s.e, c.ld(O + fld), b)
                ok = ok and (got == want or post.Q(s.e, st).eq(got, want))
            c.ob(ok, f, 'get_%s(%d)' % (n, b), 'does not deliver %s' % fld)
    for n, a, b in (('os_version', 'MajorOperatingSystemVersion', 'MinorOperatingSystemVersion'), ('subsystem_version', 'MajorSubsystemVersion', 'MinorSubsystemVersion')):
        f = c.one('set_' + n)
        setter(c, f, 'set_' + n, [(O + a, arg(c, f, 1)), (O + b, arg(c, f, 2))])
    CH = H + 'Characteristics'
    f = c.one('set_characteristics_flags')
    flags(c, f, 'set_characteristics_flags', CH, lambda e, x, y: e.mkop('or', 16, x, y))
    f = c.one('clear_characteristics_flags')
    flags(c, f, 'clear_characteristics_flags', CH, lambda e, x, y: e.mkop('and', 16, x, e.mkop('xor', 16, y, C(0xffff, 16))))
    f = c.one('check_characteristics_flag')
    both(c, f, 'check_characteristics_flag', lambda e, st: nzmask(e, c.ld(CH), e.argterm(f.args[1]['id'])))
    # constants of the image kind
    sz = c.L.by[CLS[mode]]['sz']
    oh = [m for m in c.L.by[CLS[mode]]['m'] if m[0] == 'OptionalHeader'][0][2]
    for n, v in (('get_sizeof_nt_header', sz), ('get_sizeof_opt_headers', oh), ('get_needed_magic', MAGIC[mode])):
        f = c.one(n)
        s = Sum(c.p, f)
        ok = bool(s.rets) and all(t is not None and t[0] == 'c' and t[1] == v for t, st in s.values())
        c.ob(ok, f, n, 'is not %d' % v)
    f = c.one('get_pe_type', ())
    s = Sum(c.p, f)
    vals = dict(enum(c.p, 'pe_type_32', 'pe_type_64'))
    ok = bool(s.rets) and all(t[0] == 'c' and t[1] == vals['pe_type_' + mode[1:]] for t, st in s.values())
    c.ob(ok, f, 'get_pe_type', 'is not the kind of the image')
    for f in fns(c.p, 'pe_base::get_nt_headers_ptr'):
        s = Sum(c.p, f)
        ok = len(s.rets) == 1 and s.rets[0][0] == mkptr(c.props, (c.nt, ()))
        c.ob(ok, f, 'get_nt_headers_ptr' + (' const' if f.const else ''), 'is not the address of the headers')
    f = c.one('get_pe_header_start')
    s = Sum(c.p, f)
    o = c.L.at('pe_bliss::pe_base', 'dos_header_')[0] + c.L.at('image_dos_header', 'e_lfanew')[0]
    c.ob(len(s.rets) == 1 and s.rets[0][0] == ('ld', 32, ('arg', 0), (o, ()), 'init', 'v'), f, 'get_pe_header_start', 'is not the header offset of the DOS header')
    SUB = c.ld(O + 'Subsystem')
    for n, v in (('is_console', 3), ('is_gui', 2)):
        both(c, c.one(n), n, lambda e, st: [[('eq', SUB, C(v, 16))], [('ne', SUB, C(v, 16))]])
    directories(c)
    ck.count('accessors analysed (%s)' % mode, c.n)
    if c.n < 60:
        raise Broken('P10: only %d accessors analysed' % c.n)


def nzmask(e, x, y):
    t = e.mkop('and', 16, x, y)
    a = e.mkcast('zext', 16, 32, x)
    b = e.mkcast('zext', 16, 32, y)
    u = e.mkop('and', 32, a, b)
    z = e.mkcast('zext', 16, 32, t)
    return [[('ne', t, C(0, 16)), ('ne', u, C(0, 32)), ('ne', z, C(0, 32))], [('eq', t, C(0, 16)), ('eq', u, C(0, 32)), ('eq', z, C(0, 32))]]


def both(c, f, key, cases):
    """a boolean result that is true exactly in the first case"""
    ok = True
    for k, want in ((0, 'yes'), (1, 'no')):
        s = Sum(c.p, f, assume=lambda e, st: cases(e, st)[k])
        ok = ok and bool(s.rets) and not s.throws
        for v, st, i in s.rets:
            ok = ok and v is not None and truth(s.e, st, v) == want and c.clean(s, st, ())
    c.ob(ok, f, key, 'does not hold exactly when the header says so')


def flags(c, f, key, path, op):
    s = Sum(c.p, f)
    ok = len(s.rets) == 1 and not s.throws
    if ok:
        v, st, i = s.rets[0]
        o, sz = c.field(path)
        got = s.e.read(st, c.props, (o, ()), sz)
        ok = bits16(s.e, got) == bits16(s.e, op(s.e, c.ld(path), s.e.argterm(f.args[1]['id']))) and c.clean(s, st, set([(o, sz)]))
    c.ob(ok, f, key, 'does not change exactly the given characteristics flags')


def bits16(e, t):
    """a 16-bit and/or/not expression per bit: the truth table over its leaves (at most four)"""
    ls = []

    def walk(t):
        if t[0] == 'op' and t[2] in ('and', 'or', 'xor'):
            x, y = walk(t[3]), walk(t[4])
            return (t[2], x, y)
        if t[0] == 'op' and t[2] == 'sub' and t[3][0] == 'c' and t[3][1] in (0xffff, 0xffffffff):
            return ('xor', ('k', 0xffff), walk(t[4]))
        if t[0] == 'cast' and t[2] in ('zext', 'trunc', 'sext'):
            return walk(t[4])
        if t[0] == 'c':
            return ('k', t[1] & 0xffff)
        if t not in ls:
            ls.append(t)
        return ('l', t)
    x = walk(t)
    if len(ls) > 4:
        return ('?', t)
    ls.sort(key=repr)

    def ev(x, env):
        if x[0] == 'k':
            return x[1]
        if x[0] == 'l':
            return env[x[1]]
        a, b = ev(x[1], env), ev(x[2], env)
        return (a & b) if x[0] == 'and' else (a | b) if x[0] == 'or' else (a ^ b)
    table = []
    for m in range(1 << len(ls)):
        env = dict((l, 0xffff if m >> k & 1 else 0) for k, l in enumerate(ls))
        table.append(ev(x, env) & 0xffff)
    return (tuple(ls), tuple(table))


def directories(c):
    N = c.ld(O + 'NumberOfRvaAndSizes')
    fs = dict((n, c.one(n)) for n in ('directory_exists', 'remove_directory', 'get_directory_rva', 'get_directory_size', 'set_directory_rva', 'set_directory_size'))
    for k in range(16):
        K = C(k, 32)
        VA = c.ld(O + 'DataDirectory[%d].VirtualAddress' % k)
        SZ = c.ld(O + 'DataDirectory[%d].Size' % k)
        inn = [('ult', K, N)]
        out = [('ule', N, K)]
        for n, t in (('get_directory_rva', VA), ('get_directory_size', SZ)):
            f = fs[n]
            s = Sum(c.p, f, {1: K}, lambda e, st: inn)
            ok = len(s.rets) == 1 and not s.throws and all(v == t and c.clean(s, st, ()) for v, st, i in s.rets)
            s = Sum(c.p, f, {1: K}, lambda e, st: out)
            ok = ok and s.only_throws()
            c.ob(ok, f, '%s(%d)' % (n, k), 'does not return the entry of that directory, or does not reject a missing directory')
        for n, fld in (('set_directory_rva', 'VirtualAddress'), ('set_directory_size', 'Size')):
            f = fs[n]
            s = Sum(c.p, f, {1: K}, lambda e, st: inn)
            cell = c.field(O + 'DataDirectory[%d].%s' % (k, fld))
            ok = len(s.rets) == 1 and not s.throws
            for v, st, i in s.rets:
                got = s.e.read(st, c.props, (cell[0], ()), cell[1])
                ok = ok and got == s.e.argterm(f.args[2]['id']) and c.clean(s, st, set([cell]))
            s = Sum(c.p, f, {1: K}, lambda e, st: out)
            ok = ok and s.only_throws()
            c.ob(ok, f, '%s(%d)' % (n, k), 'does not set the entry of that directory, or does not reject a missing directory')

        def exists(f, key, extra=()):
            ok = True
            cases = [(inn + [('ne', VA, C(0, 32))] + [x[0] for x in extra], 'yes'), (out, 'no'), (inn + [('eq', VA, C(0, 32))], 'no')]
            if extra:
                cases.append((inn + [('ne', VA, C(0, 32))] + [x[1] for x in extra], 'no'))
            for case, want in cases:
                s = Sum(c.p, f, {1: K} if len(f.args) > 1 else {}, lambda e, st: case)
                ok = ok and bool(s.rets) and not s.throws and all(truth(s.e, st, v) == want and c.clean(s, st, ()) for v, st, i in s.rets)
            c.ob(ok, f, key, 'does not hold exactly when the directory is present')
        exists(fs['directory_exists'], 'directory_exists(%d)' % k)
        for n, d in HAS.items():
            if d == k:
                exists(c.one(n), n)
        # removal
        f = fs['remove_directory']
        va, sz = c.field(O + 'DataDirectory[%d].VirtualAddress' % k), c.field(O + 'DataDirectory[%d].Size' % k)
        ch, dc = c.field(H + 'Characteristics'), c.field(O + 'DllCharacteristics')
        s = Sum(c.p, f, {1: K}, lambda e, st: inn + [('ne', VA, C(0, 32))])
        ok = len(s.rets) == 1 and not s.throws
        allowed = set([va, sz, (va[0], 8)])
        if k == 5:
            allowed |= set([ch, dc])
        if k == 0:
            allowed.add(ch)
        for v, st, i in s.rets:
            ok = ok and all(s.e.read(st, c.props, (o[0], ()), 4) == C(0, 32) for o in (va, sz)) and c.clean(s, st, allowed)
            if k in (0, 5):
                got = s.e.read(st, c.props, (ch[0], ()), 2)
                x = c.ld(H + 'Characteristics')
                want = s.e.mkop('or', 16, x, C(1, 16)) if k == 5 else s.e.mkop('and', 16, x, C(0xdfff, 16))
                ok = ok and bits16c(s.e, got, want)
            if k == 5:
                got = s.e.read(st, c.props, (dc[0], ()), 2)
                ok = ok and bits16c(s.e, got, s.e.mkop('and', 16, c.ld(O + 'DllCharacteristics'), C(0xffbf, 16)))
        for case in (out, inn + [('eq', VA, C(0, 32))]):
            s = Sum(c.p, f, {1: K}, lambda e, st: case)
            ok = ok and bool(s.rets) and not s.throws and all(c.clean(s, st, set([va, sz, ch, dc]) if case is not out else ()) for v, st, i in s.rets)
        c.ob(ok, f, 'remove_directory(%d)' % k, 'does not clear exactly that directory and its header flags')
    # relocations are also declared absent by a header flag
    f = c.one('has_reloc')
    VA = c.ld(O + 'DataDirectory[5].VirtualAddress')
    CH = c.ld(H + 'Characteristics')

    def stripped(e, v):
        r = []
        t = e.mkop('and', 16, CH, C(1, 16))
        u = e.mkop('and', 32, e.mkcast('zext', 16, 32, CH), C(1, 32))
        return [('ne' if v else 'eq', t, C(0, 16)), ('ne' if v else 'eq', u, C(0, 32)), ('ne' if v else 'eq', e.mkcast('zext', 16, 32, t), C(0, 32))]
    ok = True
    K = C(5, 32)
    for case, want in ((lambda e: [('ult', K, N), ('ne', VA, C(0, 32))] + stripped(e, False), 'yes'), (lambda e: [('ult', K, N), ('ne', VA, C(0, 32))] + stripped(e, True), 'no'),
                       (lambda e: [('ule', N, K)], 'no'), (lambda e: [('ult', K, N), ('eq', VA, C(0, 32))], 'no')):
        s = Sum(c.p, f, {}, lambda e, st: case(e))
        ok = ok and bool(s.rets) and not s.throws and all(truth(s.e, st, v) == want and c.clean(s, st, ()) for v, st, i in s.rets)
    c.ob(ok, f, 'has_reloc', 'does not hold exactly when the directory is present and relocations are not stripped')


def bits16c(e, got, want):
    """equality of two mask expressions, per bit"""
    return bits16(e, got) == bits16(e, want)


def enum(p, *names):
    for n, es, f in p.data['en']:
        d = dict((a, int(b)) for a, b in es)
        if all(x in d for x in names):
            return [(x, d[x]) for x in names]
    raise Broken('enumeration with %s not found' % ', '.join(names))
