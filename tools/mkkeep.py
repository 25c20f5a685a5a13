#!/usr/bin/env python3
"""Regenerates spec/keep_mod.txt from the present tree (run by hand on the pinned tree only):
the functions which stay calls in the modular export. Everything not listed is inlined into its callers."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import build, ir
td = tempfile.mkdtemp()
bcs = build.bitcode(td)
names = set()
for b in bcs:
    r = build.sh(['llvm-nm-18', b])
    if r.returncode: r = build.sh(['/usr/lib/llvm-18/bin/llvm-nm', b])
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) >= 2 and p[-2] in 'TWtVw': names.add(p[-1])
open(td + '/keep', 'w').write('\n'.join(names))
subprocess.check_call([build.irx(), td + '/all.json', td + '/keep'] + bcs)
d = json.load(open(td + '/all.json'))
# context-dependent private helpers: analysed inside their callers
INLINE = ('get_version_block_value_pos', 'get_version_block_first_child_pos', 'section_data_from_va', 'section_data_length_from_va',
          'throw_incorrect_version_info', 'format_icon_headers', 'format_cursor_headers', '_info(pe_bliss::pe_win::')
keep = []
util = []
acc = []
for k, f in d['fn'].items():
    if 'b' not in f or f['std']: continue
    nb = len(f['b'])
    acc.append(k)
    calls = [i.get('c', '') for b in f['b'] for i in b if i['o'] in ('call', 'invoke')]
    triv = nb <= 1 and all(d['fn'].get(c, {}).get('intr') for c in calls)
    if 'pe_utils::' in f['d'] and any(x in f['d'] for x in ('align_', 'is_power', 'is_sum_safe')) and not 'pe_utils::' in f['d'].split('(')[1]: triv = True
    if any(x in f['d'] for x in INLINE) and 'get_advanced' not in f['d']: triv = True
    if 'is_null_terminated' in f['d']: triv = False
    if not triv or 'pe_utils::' in f['d']: util.append(k)
    if not triv: keep.append(k)
open(os.path.join(build.VERIF, 'spec', 'keep_mod.txt'), 'w').write('\n'.join(sorted(keep)) + '\n')
open(os.path.join(build.VERIF, 'spec', 'keep_util.txt'), 'w').write('\n'.join(sorted(util)) + '\n')
open(os.path.join(build.VERIF, 'spec', 'keep_flat.txt'), 'w').write('')
open(os.path.join(build.VERIF, 'spec', 'keep_acc.txt'), 'w').write('\n'.join(sorted(acc)) + '\n')
# small functions without loops are inlined everywhere; virtual calls are resolved to one instantiation
small = set()
for k, f in d['fn'].items():
    if 'b' not in f or f['std']: continue
    n = sum(len(b) for b in f['b'])
    back = any(t <= bi for bi, b in enumerate(f['b']) for i in b[-1:] for t in (i.get('s') or []))
    if n <= 70 and not back: small.add(k)
for m, sub in (('f32', '18image_nt_headers32'), ('f64', '18image_nt_headers64')):
    open(os.path.join(build.VERIF, 'spec', 'keep_%s.txt' % m), 'w').write('#devirt %s\n' % sub + '\n'.join(x for x in sorted(acc) if x not in small) + '\n')
# reading: members of the data classes are inlined, all other functions stay calls
VALUE = ('basic_dotnet_info bound_import bound_import_ref coff_debug_info coff_debug_info::coff_symbol exception_entry export_info exported_function '
         'file_version_info image_config_info image_directory import_library import_rebuilder_settings imported_function message_table_item misc_debug_info pdb_2_0_info pdb_7_0_info '
         'relocation_entry relocation_table resource_data_entry resource_data_info resource_directory resource_directory_entry rich_data tls_info section debug_info debug_info::advanced_info resource_directory_entry::includes icon_group cursor_group').split()
LOOPS = ('entry_by_', 'map_virtual', 'unmap_virtual', 'get_virtual_data', 'get_aligned')
import re
rd = []
for k in acc:
    n = ir.split_sig(d['fn'][k]['d'])[0]
    cls = n.rsplit('::', 1)[0].replace('pe_bliss::', '', 1)
    if cls in VALUE and not any(x in n for x in LOOPS): continue
    rd.append(k)
open(os.path.join(build.VERIF, 'spec', 'keep_rd.txt'), 'w').write('\n'.join(sorted(rd)) + '\n')
print(len(keep), len(acc), len(small), len(rd))
