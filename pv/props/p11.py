"""P11: the data objects report what was set, and nothing else changes."""
import re
from .. import ir, heap, objs
from ..heap import C, mkcmp, mkop, mkcast, neg
from ..build import Broken
from .p12 import where, last

SKIP = ('pe_base', 'pe_properties', 'pe_factory', 'resource_bitmap', 'resource_cursor', 'resource_message', 'resource_string', 'resource_version',
        'version_info_', 'pe_resource', 'entry_sorter', 'ordinal_sorter', 'section_by', 'section_ptr', 'section', 'file_version_info', 'lang_string')

# what a setter does besides setting the value of its own name: (class, setter[, parameter kind]) -> {getter: value}
ARG, NONEMPTY, EMPTY, ANY = 'argument', 'argument is not empty', 'empty', 'unspecified'
SIDE = {
    ('debug_info', 'set_advanced_info_type'): {'get_advanced_info_type': ANY},     # refuses some kinds: P25
    ('exported_function', 'set_name'): {'has_name': NONEMPTY},
    ('exported_function', 'set_forwarded_name'): {'is_forwarded': NONEMPTY},
    ('imported_function', 'set_name'): {'has_name': NONEMPTY},
    ('resource_directory_entry', 'set_name'): {'is_named': True, 'get_id': 0},
    ('resource_directory_entry', 'set_id'): {'is_named': False, 'get_name': EMPTY},
    ('coff_debug_info::coff_symbol', 'set_file_name'): {'get_symbol': ARG, 'is_file': True},
    ('coff_debug_info::coff_symbol', 'set_symbol_name'): {'get_symbol': ARG, 'is_file': False},
    ('relocation_entry', 'set_rva'): {'get_item': ANY},
    ('relocation_entry', 'set_type'): {'get_item': ANY},
    ('relocation_entry', 'set_item'): {'get_rva': ANY, 'get_type': ANY, 'get_item': ANY},   # packing: P23
    ('resource_directory', 'get_minor_version'): {'get_minor_version': ARG},
    ('import_rebuilder_settings', 'enable_auto_strip_last_section'): {'auto_strip_last_section_enabled': ARG},
}
# list operations: (class, function) -> (getter of the list, 'append' or 'clear', other getters)
LISTS = {
    ('bound_import', 'add_module_ref'): ('get_module_ref_list', 'append', {'get_module_ref_count': ANY}),
    ('bound_import', 'clear_module_refs'): ('get_module_ref_list', 'clear', {'get_module_ref_count': ANY}),
    ('coff_debug_info', 'add_symbol'): ('get_symbols', 'append', {}),
    ('image_config_info', 'add_se_handler_rva'): ('get_se_handler_rvas', 'append', {}),
    ('image_config_info', 'clear_se_handler_list'): ('get_se_handler_rvas', 'clear', {}),
    ('image_config_info', 'add_lock_prefix_rva'): ('get_lock_prefix_rvas', 'append', {}),
    ('image_config_info', 'clear_lock_prefix_list'): ('get_lock_prefix_rvas', 'clear', {}),
    ('import_library', 'add_import'): ('get_imported_functions', 'append', {}),
    ('import_library', 'clear_imports'): ('get_imported_functions', 'clear', {}),
    ('relocation_table', 'add_relocation'): ('get_relocations', 'append', {}),
    ('tls_info', 'add_tls_callback'): ('get_tls_callbacks', 'append', {}),
    ('tls_info', 'clear_tls_callbacks'): ('get_tls_callbacks', 'clear', {}),
}
# getters that report a value derived from another one
DERIVED = {('imported_function', 'has_name'), ('bound_import', 'get_module_ref_count'), ('misc_debug_info', 'is_exe_name'), ('exception_entry', 'uses_frame_pointer'),
           ('exception_entry', 'has_exception_handler'), ('exception_entry', 'has_termination_handler'), ('exception_entry', 'is_chaininfo'),
           ('relocation_entry', 'get_item'), ('debug_info', 'get_type')}
NOTVIEW = {('debug_info', 'get_advanced_debug_info'), ('resource_directory', 'entry_by_id'), ('resource_directory', 'entry_by_name')}


def run(ck):
    ck.level = 'proof'
    ck.trusted = ['clang 18 and its debug information', 'tools/irx', 'pv/heap.py', 'copy assignment of std containers and strings copies their value']
    ck.explanation = ('The value every reporting function of a data class returns is a term over the state of the object; every setting function is summarised path by path, '
                      'the terms are evaluated in its final state, and only the values it names may differ from before.')
    ck.assumptions = ['allocation failure in the middle of a setter is outside this property']
    p = ir.load('f32')
    n = [0, 0]
    for cls in sorted(p.types):
        if '::pe_win::' in cls.split('<')[0] or 'lambda' in cls or '<' in cls or not cls.startswith('pe_bliss::'):
            continue
        short = cls.split('::', 1)[1]
        if any(short.startswith(x) and short not in ('resource_data_entry',) for x in SKIP) or short.endswith('finder') or short.endswith('includes'):
            continue
        klass(ck, p, cls, short, n)
    ck.count('reporting functions', n[0])
    ck.count('setting functions', n[1])
    ck.need(n[0], 150, 'reporting functions')
    ck.need(n[1], 90, 'setting functions')


def base(f):
    return re.sub(r'\[abi:\w+\]', '', last(f.name))


class View(object):
    """what the reporting functions of a class return, as terms over the object at argument 0"""

    def __init__(self, p, cls, short):
        self.p = p
        self.get = {}
        self.fs = {}
        self.bad = []
        for f in sorted(objs.members(p, cls), key=lambda f: f.dem):
            n = base(f)
            if not f.const or len(f.params) or (short, n) in NOTVIEW or n == 'operator()' or '<' in f.dem.split('(')[0].split(cls, 1)[-1]:
                continue
            P = heap.Paths(p, f)
            t = []
            for v, s in P.rets:
                sret = bool(f.raw.get('sret')) or (len(f.args) > 1)
                if sret:
                    cont = s.cont.get((('arg', 0), 0))
                    cells = tuple(sorted((k[1], v2[0], shift(v2[1])) for k, v2 in s.mem.items() if k[0] == ('arg', 0) and isinstance(k[1], int)))
                    t.append((tuple(shift(c) for c in s.conds), ('byval', shift(cont) if cont else None, cells)))
                    wr = [k for k in list(s.mem) + list(s.cont) if k[0] == ('arg', 1)]
                else:
                    t.append((tuple(s.conds), v))
                    wr = [k for k in list(s.mem) + list(s.cont) if k[0] == ('arg', 0)]
                if wr:
                    self.bad.append((f, 'changes the object it reports on'))
            self.get.setdefault(n, t)
            self.fs.setdefault(n, f)
            if not t or not P.complete:
                self.bad.append((f, 'never returns a value' if P.complete else 'not analysable'))

    def at(self, n, P, s):
        """values of getter n in state s of paths P"""
        r = []
        for conds, v in self.get[n]:
            cs = tuple(subst(c, P, s) for c in conds)
            r.append((cs, norm(subst(v, P, s, True))))
        return r

    def first(self, n):
        return [(c, norm(subst(v, None, None, True))) for c, v in self.get[n]]


def shift(t):
    """argument 1 of a function that returns by value is the object"""
    if not isinstance(t, tuple):
        return t
    if t == ('arg', 1):
        return ('arg', 0)
    return tuple(shift(x) for x in t)


def subst(t, P, s, top=False):
    """the term t over the object's initial state, in state s; a reference becomes its content"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'ld' and len(t) == 5 and t[1] == ('arg', 0) and t[4] == 0 and isinstance(t[2], int):
        return P.cell(s, t[1], t[2], t[3]) if P else t
    if t[0] == 'init' and len(t) == 4 and t[1] == ('arg', 0) and t[3] == 0:
        return s.cont.get((t[1], t[2]), t) if P else t
    if top and t[0] == 'p' and t[1] == ('arg', 0):
        c = ('init', ('arg', 0), t[2], 0)
        return ('content', s.cont.get((t[1], t[2]), c) if P else c)
    if t[0] == 'p' and t[1] == ('arg', 0):
        return t
    if t[0] == 'byval':
        return ('byval', subst(t[1], P, s), tuple((o, z, subst(v, P, s)) for o, z, v in t[2]))
    r = tuple(subst(x, P, s) for x in t)
    if r[0] == 'cmp':
        return mkcmp(r[1], r[2], r[3])
    if r[0] == 'op' and len(r) == 5:
        return mkop(r[1], r[2], r[3], r[4])
    if r[0] == 'cast' and len(r) == 5:
        return mkcast(r[1], r[2], r[3], r[4])
    return r


def norm(t):
    """one form for the same truth"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'call' and t[1] in ('basic_string::empty', 'vector::empty') and len(t) == 5:
        return ('empty?', norm(t[4][0]))
    t = tuple(norm(x) for x in t)
    if t[0] == 'cmp' and t[1] in ('eq', 'ne', 'ugt') and t[3] in (C(0, 64), C(0, 32)) and t[2][0] == 'call' and t[2][1].split('::')[-1] in ('length', 'size'):
        e = ('empty?', t[2][4][0])
        return e if t[1] == 'eq' else ('not', e)
    if t[0] == 'op' and t[1] == 'xor' and t[4] in (C(1, 1), C(1, 8)):
        x = t[3]
        if x[0] == 'cast' and x[1] == 'zext' and x[2] == 1:
            x = x[4]
        return ('bool', x[1]) if x[0] == 'not' else ('not', x)
    if t[0] == 'cast' and t[1] in ('zext', 'trunc') and t[4][0] in ('not', 'empty?'):
        return t[4]
    if t[0] == 'cmp' and t[3][0] == 'c' and t[3][1] == 0 and t[1] in ('eq', 'ne') and t[2][0] in ('not', 'empty?', 'cast') and (t[2][0] != 'cast' or t[2][2] == 1):
        x = t[2][4] if t[2][0] == 'cast' else t[2]
        return x if t[1] == 'ne' else ('not', x)
    if t[0] == 'not' and t[1][0] == 'not':
        return t[1][1]
    return t


def klass(ck, p, cls, short, n):
    V = View(p, cls, short)
    acc = objs.access(p)
    for f, what in V.bad:
        ck.ob(False, '%s::%s' % (short, base(f)), where(f), what)
    plain = {}
    for g in sorted(V.get):
        n[0] += 1
        f = V.fs[g]
        ck.ob(True, '%s::%s reports without changing the object' % (short, g), where(f))
        if (short, g) in DERIVED:
            continue
        key = repr(V.first(g))
        other = plain.get(key)
        ck.ob(other is None, '%s::%s reports a value of its own' % (short, g), where(f), 'returns the same member as %s' % other)
        plain.setdefault(key, g)
    for f in sorted(objs.members(p, cls), key=lambda f: f.dem):
        nm = base(f)
        if f.const or nm.startswith('~') or nm == last(cls) or nm == 'operator=' or not objs.public(acc, f):
            continue
        sig = '%s::%s(%s)' % (short, nm, ', '.join(tidy(x) for x in f.params))
        if (short, nm) in LISTS:
            n[1] += 1
            listop(ck, p, V, short, nm, f, sig)
            continue
        own = own_getter(V, short, nm, f)
        side = dict(SIDE.get((short, nm), {}))
        if len(f.params) != 1 or (own is None and not side) or short == 'message_table_item':
            continue
        n[1] += 1
        if own and own not in side:
            side[own] = ARG
        setter(ck, p, V, f, sig, side)
    if short == 'import_rebuilder_settings':
        n[1] += 1
        pair(ck, p, V, [f for f in objs.members(p, cls) if base(f) == 'save_iat_and_original_iat_rvas' and len(f.params) == 2])
    if short == 'message_table_item':
        for f in objs.members(p, cls):
            if base(f) == 'set_string':
                n[1] += 1
                message(ck, f, short)


def tidy(x):
    x = re.sub(r'std::(__cxx11::)?basic_string<(char|wchar_t),.*?>+', lambda m: 'string' if m.group(2) == 'char' else 'wstring', x)
    return x.replace('pe_bliss::', '')


def own_getter(V, short, nm, f):
    c = []
    if nm.startswith('set_'):
        c = ['get_' + nm[4:], 'is_' + nm[4:], 'has_' + nm[4:]]
    elif len(f.params) == 1 and f.params[0] == 'bool':
        c = [nm]
    for x in c:
        if x in V.get:
            return x
    return None


def want(kind, f, P):
    """acceptable terms for a value that a setter establishes"""
    a = P.arg(1)
    if kind is ARG:
        if a[0] == 'p':
            return [('content', ('init', ('arg', 1), 0, 0))]
        return [a]
    if kind is NONEMPTY:
        return [('not', ('empty?', ('init', ('arg', 1), 0, 0)))]
    if kind is EMPTY:
        return [('content', ('empty',))]
    if kind is True or kind is False:
        return [C(int(kind), 1)]
    return None


def same(got, kind, f, P):
    if kind is ANY:
        return True
    if isinstance(kind, int) and not isinstance(kind, bool):
        return got[0] == 'c' and got[1] == kind
    for w in want(kind, f, P):
        if got == w or norm(got) == norm(w):
            return True
        # width changes that keep the value
        if w[0] == 'a' and got[0] == 'cast' and got[1] == 'zext' and got[4] == w:
            return True
        if w[0] == 'a' and w[2] == 1 and got[0] in ('cmp',) and got[1] == 'ne' and got[2] == ('cast', 'zext', 1, 8, w):
            return True
    return False


def words(kind):
    return {ARG: 'the given value', NONEMPTY: 'whether the argument is not empty', EMPTY: 'empty', True: 'true', False: 'false'}.get(kind, str(kind))


def setter(ck, p, V, f, sig, side):
    P = heap.Paths(p, f)
    msg = []
    if not P.complete or not P.rets:
        msg.append('never finishes normally' if P.complete else 'not analysable')
    for v, s in P.rets:
        for g in sorted(V.get):
            got = V.at(g, P, s)
            if g in side:
                for conds, t in got:
                    if not same(t, side[g], f, P):
                        msg.append('%s reports %s instead of %s' % (g, objs.say(t), words(side[g])))
            elif got != V.first(g):
                msg.append('%s changes' % g)
    ck.ob(not msg, sig, where(f), '; '.join(dict.fromkeys(msg)))


def listop(ck, p, V, short, nm, f, sig):
    g, kind, side = LISTS[short, nm]
    P = heap.Paths(p, f)
    msg = []
    if not P.complete or not P.rets:
        msg.append('never finishes normally' if P.complete else 'not analysable')
    for v, s in P.rets:
        for h in sorted(V.get):
            got = V.at(h, P, s)
            if h == g:
                t = got[0][1]
                c = t[1] if t[0] == 'content' else t
                if kind == 'clear':
                    ok = c == ('empty',)
                else:
                    ok = c[0] == 'mut' and c[1] in ('push_back', 'emplace_back') and c[4] == ('init', ('arg', 0), off(V, g), 0) and elem(P, s, c)
                if not ok:
                    msg.append('%s is not %s' % (g, 'empty' if kind == 'clear' else 'what it was with the argument at the end'))
            elif h not in side and got != V.first(h):
                msg.append('%s changes' % h)
    ck.ob(not msg, sig, where(f), '; '.join(dict.fromkeys(msg)))


def off(V, g):
    return V.get[g][0][1][2]


def elem(P, s, c):
    """the pushed element is the argument"""
    a = c[2][0]
    if a == ('p', ('arg', 1), 0):
        return c[3][0] == ('init', ('arg', 1), 0, 0)
    if a[0] == 'p' and a[1][0] == 'loc':
        w = P.arg(1)
        return P.cell(s, a[1], 0, heap.bits(w) // 8) == w if w[0] == 'a' else False
    return False


def pair(ck, p, V, fs):
    if len(fs) != 1:
        raise Broken('P11: save_iat_and_original_iat_rvas not found')
    f = fs[0]
    P = heap.Paths(p, f)
    msg = []
    for v, s in P.rets:
        on = any(c == ('a', 1, 1) for c in s.conds)
        offc = any(c == neg(('a', 1, 1)) for c in s.conds)
        for g in sorted(V.get):
            t = V.at(g, P, s)
            if g == 'save_iat_and_original_iat_rvas':
                if not (norm(t[0][1]) == norm(('a', 1, 1)) or (on and t[0][1] == C(1, 1)) or (offc and t[0][1] == C(0, 1)) or same(t[0][1], ARG, f, P)):
                    msg.append('%s is not the first argument' % g)
            elif g == 'rewrite_iat_and_original_iat_contents':
                x = t[0][1]
                if not ((offc and x == C(0, 1)) or (on and norm(x) in (('a', 2, 1), ('cast', 'zext', 1, 8, ('a', 2, 1)))) or (norm(x) == norm(('op', 'and', 1, ('a', 1, 1), ('a', 2, 1))))
                        or (on and x == ('cmp', 'ne', ('cast', 'zext', 1, 8, ('a', 2, 1)), C(0, 8)))):
                    msg.append('%s is not the second argument when saving, and false otherwise' % g)
            elif t != V.first(g):
                msg.append('%s changes' % g)
    ck.ob(bool(P.rets) and P.complete and not msg, 'import_rebuilder_settings::save_iat_and_original_iat_rvas(bool, bool)', where(f), '; '.join(dict.fromkeys(msg)))


def message(ck, f, short):
    """sets one of the strings (without the zero bytes around it) and clears the other"""
    p = ir.load('mod')
    wide = 'wchar_t' in f.params[0]
    fs = [g for g in p.repo_fns() if g.name == f.name and g.params == f.params]
    msg = []
    if len(fs) != 1:
        raise Broken('P11: message_table_item::set_string not found')
    V = View(p, 'pe_bliss::message_table_item', short)
    P = heap.Paths(p, fs[0], own=[('arg', 0)])
    for v, s in P.rets:
        if V.at('is_unicode', P, s)[0][1] != C(int(wide), 1):
            msg.append('is_unicode is not %s' % ('true' if wide else 'false'))
        mine, other = ('get_unicode_string', 'get_ansi_string') if wide else ('get_ansi_string', 'get_unicode_string')
        if V.at(other, P, s)[0][1] != ('content', ('empty',)):
            msg.append('%s is not empty' % other)
        t = V.at(mine, P, s)[0][1][1]
        if not (t == ('init', ('arg', 1), 0, 0) or (t[0] == 'mut' and t[1] == 'strip_nullbytes' and t[3][0] == ('init', ('arg', 1), 0, 0))):
            msg.append('%s is not the given text' % mine)
    ck.ob(bool(P.rets) and not msg, '%s::set_string(%s)' % (short, 'wstring' if wide else 'string'), where(f), '; '.join(dict.fromkeys(msg)))
