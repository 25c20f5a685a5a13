"""On-disk format: layouts, magic numbers and official constants, decided by a compile-fail witness
(static_assert over the headers of the current tree, expected values from spec/format.json)."""
import json, os, re, subprocess, tempfile, shutil
from .. import build
from ..build import Broken

EXTRA = [
    # enumerations users pass straight through to the file format
    ('pe_bliss::pe_resource_viewer::resource_%s', {'cursor': 1, 'bitmap': 2, 'icon': 3, 'menu': 4, 'dialog': 5, 'string': 6,
     'fontdir': 7, 'font': 8, 'accelerator': 9, 'rcdata': 10, 'message_table': 11, 'cursor_group': 12, 'icon_group': 14,
     'version': 16, 'dlginclude': 17, 'plugplay': 19, 'vxd': 20, 'anicursor': 21, 'aniicon': 22, 'html': 23, 'manifest': 24}),
    ('pe_bliss::pe_win::uwop_%s', {'push_nonvol': 0, 'alloc_large': 1, 'alloc_small': 2, 'set_fpreg': 3, 'save_nonvol': 4,
     'save_nonvol_far': 5, 'save_xmm128': 8, 'save_xmm128_far': 9, 'push_machframe': 10}),
    ('pe_bliss::pe_win::comimage_flags_%s', {'ilonly': 1, '32bitrequired': 2, 'il_library': 4, 'strongnamesigned': 8,
     'native_entrypoint': 0x10, 'trackdebugdata': 0x10000}),
    ('pe_bliss::pe_types_class_32::%s', {'Id': 0x10b, 'ImportSnapFlag': 0x80000000}),
    ('pe_bliss::pe_types_class_64::%s', {'Id': 0x20b, 'ImportSnapFlag': 1 << 63}),
]
TRAITS = [('pe_bliss::pe_types_class_%d::BaseSize', {32: 4, 64: 8}), ('pe_bliss::pe_types_class_%d::TLSStruct', {32: 24, 64: 40}),
          ('pe_bliss::pe_types_class_%d::ConfigStruct', {32: 72, 64: 112}), ('pe_bliss::pe_types_class_%d::NtHeaders', {32: 248, 64: 264}),
          ('pe_bliss::pe_types_class_%d::OptHeaders', {32: 224, 64: 240})]


def run(ck):
    spec = json.load(open(os.path.join(build.VERIF, 'spec', 'format.json')))
    asserts = []
    for s, d in sorted(spec['structs'].items()):
        q = 'pe_bliss::pe_win::' + s
        asserts.append(('sizeof ' + s, 'sizeof(%s) == %d' % (q, d['size']), '%s must occupy %d bytes' % (s, d['size'])))
        for f, off, size, signed in d['fields']:
            asserts.append(('offset %s.%s' % (s, f), '__builtin_offsetof(%s, %s) == %d' % (q, f, off), '%s.%s must lie at byte %d' % (s, f, off)))
            asserts.append(('width %s.%s' % (s, f), 'sizeof(((%s*)0)->%s) == %d' % (q, f, size), '%s.%s must be %d bytes wide' % (s, f, size)))
            if '.' not in f and size in (1, 2, 4, 8) and (s, f) != ('OMFSignature', 'Signature'):
                asserts.append(('signedness %s.%s' % (s, f), 'std::is_signed<std::remove_all_extents<decltype(%s::%s)>::type>::value == %s' % (q, f, 'true' if signed else 'false'),
                                '%s.%s has the wrong signedness' % (s, f)))
    for c, v in sorted(spec['constants'].items()):
        asserts.append(('constant ' + c, 'pe_bliss::pe_win::%s == %dull' % (c, v), '%s must be %#x' % (c, v)))
    for pat, d in EXTRA:
        for k, v in sorted(d.items()):
            n = pat % k
            asserts.append(('constant ' + n, 'static_cast<unsigned long long>(%s) == %dull' % (n, v), '%s must be %#x' % (n, v)))
    for pat, d in TRAITS:
        for k, v in sorted(d.items()):
            n = pat % k
            asserts.append(('sizeof ' + n, 'sizeof(%s) == %d' % (n, v), '%s must occupy %d bytes' % (n, v)))
    head = ['#include <cstddef>', '#include <type_traits>', '#include "pe_bliss.h"', '#include "pe_bliss_resources.h"']
    td = tempfile.mkdtemp(prefix='pv08')
    try:
        src = os.path.join(td, 'w.cpp')
        with open(src, 'w') as f:
            f.write('\n'.join(head) + '\n')
            for k, e, m in asserts:
                f.write('static_assert(%s, "pv");\n' % e)
        r = build.sh(['g++', '-std=c++11', '-fsyntax-only', '-w', '-fmax-errors=0', '-I' + build.SRC, src])
        bad = {}
        for m in re.finditer(r'w\.cpp:(\d+):\d+: error: (.*)', r.stderr):
            bad.setdefault(int(m.group(1)) - len(head) - 1, []).append(m.group(2))
        other = re.search(r'pe_lib/[^\n]*error:[^\n]*', r.stderr)
        if other:
            raise Broken('the headers do not compile: ' + other.group(0))
        for n, errs in bad.items():
            if any('static assertion' not in e for e in errs):
                raise Broken('the witness does not compile for %s: %s' % (asserts[n][0], errs[0]))
        if r.returncode and not bad:
            raise Broken('the witness does not compile: ' + r.stderr[-500:])
    finally:
        shutil.rmtree(td, ignore_errors=True)
    for n, (k, e, m) in enumerate(asserts):
        ck.ob(n not in bad, k, 'src/pe_lib (witness: %s)' % e, m)
    ck.need(len(asserts), 1100, 'static assertions')
    ck.level = 'proof'
    ck.trusted = ['g++ 13 evaluates static_assert, sizeof and offsetof as the library build does', 'spec/format.json transcribes winnt.h, winver.h, corhdr.h']
    ck.explanation = 'Compile-fail witness: one static assertion per structure size, field offset, field width, signedness and constant.'
