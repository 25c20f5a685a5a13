"""P23: flags, kinds and packed fields of data objects mean what the file format says."""
from .. import ir, heap, objs, bitv
from ..heap import C, mkcmp, mkop
from ..build import Broken
from .p12 import where, last
from .p11 import base, tidy

# flag views: class -> (getter of the flags, {reporting function: mask}, {setting function: mask})
FLAGS = {
    'file_version_info': ('get_file_flags',
                          {'is_debug': 1, 'is_prerelease': 2, 'is_patched': 4, 'is_private_build': 8, 'is_info_inferred': 16, 'is_special_build': 32},
                          {'set_debug': 1, 'set_prerelease': 2, 'set_patched': 4, 'set_private_build': 8, 'set_info_inferred': 16, 'set_special_build': 32}),
    'section': ('get_characteristics',
                {'readable': 0x40000000, 'writeable': 0x80000000, 'executable': 0x20000000, 'shared': 0x10000000, 'discardable': 0x02000000},
                {'readable': 0x40000000, 'writeable': 0x80000000, 'executable': 0x20000000, 'shared': 0x10000000, 'discardable': 0x02000000}),
    'exception_entry': ('get_flags', {'has_exception_handler': 1, 'has_termination_handler': 2, 'is_chaininfo': 4}, {}),
    'basic_dotnet_info': ('get_flags', {'is_il_only': 1, 'is_32bit_required': 2, 'is_il_library': 4, 'is_native_entry_point': 16}, {}),
}
# raw value -> enumerator: class, getter, raw getter, setter, raw setter, table, enumerator for every other value
OS = {'dos': 0x10000, 'os216': 0x20000, 'os232': 0x30000, 'nt': 0x40000, 'wince': 0x50000, 'win16': 1, 'pm16': 2, 'pm32': 3, 'win32': 4,
      'dos_win16': 0x10001, 'dos_win32': 0x10004, 'os216_pm16': 0x20002, 'os232_pm32': 0x30003, 'nt_win32': 0x40004}
TYPE = {'application': 1, 'dll': 2, 'driver': 3, 'font': 4, 'vxd': 5, 'static_lib': 7}
DBG = {'coff': 1, 'codeview': 2, 'fpo': 3, 'misc': 4, 'exception': 5, 'fixup': 6, 'omap_to_src': 7, 'omap_from_src': 8, 'borland': 9, 'reserved10': 10, 'clsid': 11}
MAPS = [('file_version_info', 'get_file_os', 'get_file_os_raw', 'set_file_os', 'file_os_', OS, 'file_os_unknown'),
        ('file_version_info', 'get_file_type', 'get_file_type_raw', 'set_file_type', 'file_type_', TYPE, 'file_type_unknown'),
        ('debug_info', 'get_type', 'get_type_raw', None, 'debug_type_', DBG, 'debug_type_unknown')]
# plain accessors of the classes that wrap a structure of the file: getter -> field
STRUCT = {
    'section': ('image_section_header', {'get_virtual_size': 'Misc.VirtualSize', 'get_virtual_address': 'VirtualAddress', 'get_size_of_raw_data': 'SizeOfRawData',
                                         'get_pointer_to_raw_data': 'PointerToRawData', 'get_characteristics': 'Characteristics'}),
    'basic_dotnet_info': ('image_cor20_header', {
        'get_major_runtime_version': 'MajorRuntimeVersion', 'get_minor_runtime_version': 'MinorRuntimeVersion', 'get_flags': 'Flags',
        'get_rva_of_metadata': 'MetaData.VirtualAddress', 'get_size_of_metadata': 'MetaData.Size', 'get_entry_point_rva_or_token': ('Flags', 4),
        'get_rva_of_resources': 'Resources.VirtualAddress', 'get_size_of_resources': 'Resources.Size',
        'get_rva_of_strong_name_signature': 'StrongNameSignature.VirtualAddress', 'get_size_of_strong_name_signature': 'StrongNameSignature.Size',
        'get_rva_of_code_manager_table': 'CodeManagerTable.VirtualAddress', 'get_size_of_code_manager_table': 'CodeManagerTable.Size',
        'get_rva_of_vtable_fixups': 'VTableFixups.VirtualAddress', 'get_size_of_vtable_fixups': 'VTableFixups.Size',
        'get_rva_of_export_address_table_jumps': 'ExportAddressTableJumps.VirtualAddress', 'get_size_of_export_address_table_jumps': 'ExportAddressTableJumps.Size',
        'get_rva_of_managed_native_header': 'ManagedNativeHeader.VirtualAddress', 'get_size_of_managed_native_header': 'ManagedNativeHeader.Size'}),
}


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18 and its debug information', 'tools/irx', 'pv/heap.py, pv/bitv.py']
    ck.explanation = ('Each reporting and setting function of a flag, kind or packed field is summarised path by path; its result and the cells it changes are compared, bit by bit and for '
                      'every value of the underlying field, with the tables of the file format in this check.')
    p = ir.load('f32')
    n = [0]
    M = dict((cls, {}) for cls in set(FLAGS) | set(STRUCT) | set(['relocation_entry', 'debug_info', 'file_version_info']))
    for cls in M:
        for f in objs.members(p, 'pe_bliss::' + cls):
            M[cls].setdefault(base(f), []).append(f)
    for cls, (raw, gs, ss) in sorted(FLAGS.items()):
        cell = rawcell(p, M[cls], raw, cls)
        for g, m in sorted(gs.items()):
            n[0] += 1
            flagget(ck, p, pick(M, cls, g, True, 0), cls, g, cell, m)
        for g, m in sorted(ss.items()):
            n[0] += 1
            flagset(ck, p, pick(M, cls, g, False, 1), cls, g, cell, lambda a: (C(m, 32), a))
    V = 'file_version_info'
    cell = rawcell(p, M[V], 'get_file_flags', V)
    f = pick(M, V, 'set_file_flag', False, 1)
    flagset(ck, p, f, V, 'set_file_flag(flag)', cell, lambda a: (a, C(1, 1)))
    f = pick(M, V, 'set_file_flag', False, 2)
    flagset(ck, p, f, V, 'set_file_flag(flag, bool)', cell, None)
    f = pick(M, V, 'clear_file_flag', False, 1)
    flagset(ck, p, f, V, 'clear_file_flag(flag)', cell, lambda a: (a, C(0, 1)))
    cell = rawcell(p, M['section'], 'get_characteristics', 'section')
    f = pick(M, 'section', 'set_flag', False, 2)
    flagset(ck, p, f, 'section', 'set_flag(flag, bool)', cell, None)
    plainset(ck, p, M, V, n)
    plainset(ck, p, M, 'section', n)
    for m in MAPS:
        kinds(ck, p, M, m, n)
    for cls, (st, gs) in sorted(STRUCT.items()):
        struct(ck, p, M, cls, st, gs, n)
    relocs(ck, p, M, n)
    ck.need(n[0], 110, 'functions and kinds compared with the file format')


def pick(M, cls, name, const, np):
    fs = [f for f in M[cls].get(name, []) if f.const == const and len(f.params) == np]
    if len(fs) != 1:
        raise Broken('P23: %s::%s not found' % (cls, name))
    return fs[0]


def rawcell(p, ms, raw, cls):
    f = pick({cls: ms}, cls, raw, True, 0)
    P = heap.Paths(p, f)
    if len(P.rets) == 1 and P.rets[0][0] is not None and P.rets[0][0][0] == 'ld' and P.rets[0][0][1] == ('arg', 0):
        return P.rets[0][0]
    raise Broken('P23: %s::%s does not return a member' % (cls, raw))


def untouched(P, s, but=()):
    """nothing of the object changes except the given cells"""
    for (b, o), (sz, v) in s.mem.items():
        if b != ('arg', 0) or any(isinstance(o, int) and c[2] <= o and o + sz <= c[2] + c[3] for c in but):
            continue
        if v != ('ld', b, o, sz, 0):
            return False
    return not any(k[0] == ('arg', 0) and v != ('init', k[0], k[1], 0) for k, v in s.cont.items())


def flagget(ck, p, f, cls, g, cell, mask):
    P = heap.Paths(p, f)
    want = mkcmp('ne', mkop('and', cell[3] * 8, cell, C(mask, cell[3] * 8)), C(0, cell[3] * 8))
    ok = P.complete and P.rets and all(bitv.same(v, want, s.conds) and untouched(P, s) for v, s in P.rets)
    ck.ob(ok, '%s::%s is flag 0x%x' % (cls, g, mask), where(f), 'does not report exactly that flag')


def flagset(ck, p, f, cls, g, cell, what):
    P = heap.Paths(p, f)
    n = cell[3] * 8
    if what is None:
        m, on = P.arg(1), P.arg(2)
    else:
        m, on = what(P.arg(1))
    ok = P.complete and bool(P.rets)
    for v, s in P.rets:
        got = bitv.bv(P.cell(s, cell[1], cell[2], cell[3]))
        old, mb, ob = bitv.bv(cell), bitv.bv(m), bitv.bv(on)[0]
        cs = [bitv.bv(c)[0] for c in s.conds]
        for i in range(n):
            w = bitv.op('or', bitv.op('and', bitv.NOT(mb[i]), old[i]), bitv.op('and', mb[i], ob))
            ok = ok and bool(bitv.equal(got[i], w, cs))
        ok = ok and untouched(P, s, [cell])
        if cls == 'section' and v is not None:
            ok = ok and v == ('p', ('arg', 0), 0)
    ck.ob(ok, '%s::%s changes exactly its flag' % (cls, g), where(f), 'sets or clears something else than the flag it names')


def plainset(ck, p, M, cls, n):
    """set_X(v) makes get_X report v, and nothing else changes"""
    cells = {}
    for g, fs in sorted(M[cls].items()):
        for f in fs:
            if f.const and g.startswith('get_') and not f.params:
                P = heap.Paths(p, f)
                if len(P.rets) == 1 and P.rets[0][0] is not None and P.rets[0][0][0] == 'ld' and P.rets[0][0][1] == ('arg', 0):
                    n[0] += 1
                    ck.ob(P.rets[0][0] not in cells.values() or g in ('x',), '%s::%s reports a member of its own' % (cls, g), where(f), 'another function reports the same member')
                    cells[g] = P.rets[0][0]
    for g, fs in sorted(M[cls].items()):
        c = cells.get('get_' + g[4:]) if g.startswith('set_') else None
        for f in fs:
            if c is None or len(f.params) != 1:
                continue
            n[0] += 1
            P = heap.Paths(p, f)
            ok = P.complete and bool(P.rets)
            for v, s in P.rets:
                ok = ok and bitv.same(P.cell(s, c[1], c[2], c[3]), P.arg(1), s.conds) and untouched(P, s, [c])
            ck.ob(ok, '%s::%s' % (cls, g), where(f), 'get_%s does not report the given value afterwards, or something else changes' % g[4:])


def enumval(p, name):
    for n, es, f in p.data['en']:
        for a, b in es:
            if a == name:
                return int(b)
    raise Broken('P23: enumerator %s not found' % name)


def kinds(ck, p, M, spec, n):
    cls, g, raw, sett, prefix, table, other = spec
    cell = rawcell(p, M[cls], raw, cls)
    b = cell[3] * 8
    f = pick(M, cls, g, True, 0)
    vals = dict((enumval(p, prefix + k), v) for k, v in table.items())
    for e, v in sorted(vals.items()) + [(enumval(p, other), None)]:
        n[0] += 1
        pre = [mkcmp('eq', cell, C(v, b))] if v is not None else [mkcmp('ne', cell, C(x, b)) for x in table.values()]
        P = heap.Paths(p, f, pre=lambda _: pre)
        ok = P.complete and bool(P.rets) and all(r[0] == 'c' and r[1] == e and untouched(P, s) for r, s in P.rets)
        ck.ob(ok, '%s::%s for %s' % (cls, g, 'raw value 0x%x' % v if v is not None else 'any other raw value'), where(f), 'is not the kind the file format gives to this value')
    if not sett:
        return
    f = pick(M, cls, sett, False, 1)
    for e, v in sorted(vals.items()) + [(None, None)]:
        n[0] += 1
        a = ('a', 1, 32)
        pre = [mkcmp('eq', a, C(e, 32))] if v is not None else [mkcmp('ne', a, C(x, 32)) for x in vals]
        P = heap.Paths(p, f, pre=lambda _: pre)
        ok = P.complete and bool(P.rets)
        for r, s in P.rets:
            got = P.cell(s, cell[1], cell[2], cell[3])
            ok = ok and got == (C(v, b) if v is not None else cell) and untouched(P, s, [cell])
        ck.ob(ok, '%s::%s(%s)' % (cls, sett, 'the kind of 0x%x' % v if v is not None else 'any other value'), where(f),
              'does not store the value of this kind' if v is not None else 'changes the value')


def struct(ck, p, M, cls, st, gs, n):
    from ..summ import Layout
    L = Layout(p)
    off, sz = L.at('pe_bliss::' + cls, 'header_')
    for g, path in sorted(gs.items()):
        n[0] += 1
        o, z = L.at(st, path) if isinstance(path, str) else (L.at(st, path[0])[0] + path[1], 4)     # the field after this one (in a union)
        if not isinstance(path, str):
            path = 'EntryPointToken'
        f = pick(M, cls, g, True, 0)
        P = heap.Paths(p, f)
        want = ('ld', ('arg', 0), off + o, z, 0)
        ok = P.complete and P.rets and all(v is not None and bitv.same(v, want, s.conds) and untouched(P, s) for v, s in P.rets)
        ck.ob(ok, '%s::%s is field %s of the header' % (cls, g, path), where(f), 'reports something else')
    for g in M[cls].get('get_raw_header', []):
        P = heap.Paths(p, g)
        ck.ob(bool(P.rets) and all(v == ('p', ('arg', 0), off) for v, s in P.rets), '%s::get_raw_header%s' % (cls, ' const' if g.const else ''), where(g), 'is not the header of the object')
    if cls == 'section':
        f = pick(M, cls, 'set_name', False, 1)
        P = heap.Paths(p, f)
        o, z = L.at(st, 'Name')
        c = ('ld', ('arg', 0), off + o, z, 0)
        ok = P.complete and P.rets and all(untouched(P, s, [c]) for v, s in P.rets)
        ck.ob(ok, 'section::set_name changes the name only', where(f), 'writes outside of the name field')


def relocs(ck, p, M, n):
    """an entry of the relocation table: type in the upper 4 bits, offset in the lower 12"""
    cls = 'relocation_entry'
    rva, typ = (rawcell(p, M[cls], g, cls) for g in ('get_rva', 'get_type'))
    f = pick(M, cls, 'get_item', True, 0)
    P = heap.Paths(p, f)
    n[0] += 2
    # offsets and types within their ranges
    r, t = bitv.bv(rva), bitv.bv(typ)
    want = r[:12] + t[:4]
    bitv.ZERO = set(r[12:] + t[4:])
    ok = P.complete and bool(P.rets)
    for v, s in P.rets:
        b = bitv.bv(v)
        ok = ok and len(b) == 16 and all(bitv.equal(x, w, [bitv.bv(c)[0] for c in s.conds]) for x, w in zip(b, want))
    bitv.ZERO = set()
    ck.ob(ok, 'relocation_entry::get_item packs type and offset', where(f), 'the type is not in the upper four bits above the offset')
    for f in M[cls].get('set_item', []) + [g for g in M[cls].get(cls, []) if len(g.params) == 1 and 'relocation_entry' not in g.params[0]]:
        n[0] += 1
        P = heap.Paths(p, f)
        ok = P.complete and bool(P.rets)
        a = bitv.bv(P.arg(1))
        for v, s in P.rets:
            cs = [bitv.bv(c)[0] for c in s.conds]
            for c, w in ((rva, a[:12] + [0] * 4), (typ, a[12:] + [0] * 12)):
                got = bitv.bv(P.cell(s, c[1], c[2], c[3]))
                ok = ok and all(bitv.equal(x, y, cs) for x, y in zip(got, w))
        ck.ob(ok, 'relocation_entry::%s unpacks type and offset' % base(f), where(f), 'the upper four bits are not the type or the lower twelve not the offset')
