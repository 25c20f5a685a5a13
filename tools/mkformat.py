"""One-off generator of spec/format.json from the pinned tree; the output was then compared by hand with winnt.h."""
import sys, re, json, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import ir, build
SZ = {'uint8_t': 1, 'uint16_t': 2, 'uint32_t': 4, 'uint64_t': 8, 'int32_t': 4, 'int16_t': 2, 'char': 1}
src = open(build.SRC + '/pe_structures.h').read()
out = {'structs': {}, 'constants': {}, 'enums': {}}
body = re.compile(r'^struct (\w+)[^\n]*\n\{(.*?)^\};', re.M | re.S)
structs = {}
for m in body.finditer(src):
    structs[m.group(1)] = m.group(2)


def fields(text, base=0, prefix=''):
    """list of (path, offset, size, signed), total size (packed structures)"""
    text = re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=re.S)
    r = []
    off = base
    pos = 0
    toks = re.compile(r'\s*(?:(union|struct)\s*\{|(\w+)\s+(\w+)\s*((?:\[[^\]]*\])?)\s*(?::\s*(\d+))?\s*;)')
    bit = None
    bits = 0
    while True:
        m = toks.match(text, pos)
        if not m:
            break
        if m.group(1):
            d = 1
            j = m.end()
            while d:
                d += {'{': 1, '}': -1}.get(text[j], 0)
                j += 1
            inner = text[m.end():j - 1]
            e = re.compile(r'\s*(\w*)\s*;').match(text, j)
            nm = e.group(1)
            pos = e.end()
            if m.group(1) == 'union':
                best = 0
                p2 = 0
                rr = []
                # every member starts at the same offset
                parts = []
                while True:
                    mm = toks.match(inner, p2)
                    if not mm:
                        break
                    if mm.group(1):
                        d = 1
                        j = mm.end()
                        while d:
                            d += {'{': 1, '}': -1}.get(inner[j], 0)
                            j += 1
                        e = re.compile(r'\s*(\w*)\s*;').match(inner, j)
                        parts.append(inner[p2:e.end()])
                        p2 = e.end()
                    else:
                        parts.append(inner[p2:mm.end()])
                        p2 = mm.end()
                for pt in parts:
                    f, s = fields(pt, off, prefix + (nm + '.' if nm else ''))
                    rr += f
                    best = max(best, s)
                r += rr
                off += best
            else:
                f, s = fields(inner, off, prefix + (nm + '.' if nm else ''))
                r += f
                off += s
            continue
        pos = m.end()
        ty, nm, arr, bf = m.group(2), m.group(3), m.group(4), m.group(5)
        n = 1
        if arr:
            a = arr.strip('[]')
            n = 16 if a == 'image_numberof_directory_entries' else int(a)
        if ty == 'unwind_code':
            s = 2
        elif ty in SZ:
            s = SZ[ty]
        else:
            s = out['structs'][ty]['size']
        if bf:
            if bits == 0:
                bit = off
                off += s
            bits += int(bf)
            if bits >= s * 8:
                bits = 0
            continue
        r.append((prefix + nm, off, s * n, ty.startswith('int')))
        off += s * n
    return r, off - base


for n, t in structs.items():
    f, s = fields(t)
    out['structs'][n] = {'size': s, 'fields': [list(x) for x in f]}
for k, v in re.findall(r'^const uint(?:32|64)_t (\w+)\s*=\s*([^;]+);', src, re.M):
    v = re.sub(r'static_cast<uint8_t>\(-1\)', '255', v)
    v = re.sub(r'(?i)(0x[0-9a-f]+|\d+)(ull|l)\b', r'\1', v)
    out['constants'][k] = int(v, 0)
json.dump(out, open(os.path.join(build.VERIF, 'spec', 'format.json'), 'w'), indent=0, sort_keys=True)
for n, s in out['structs'].items():
    print(n, s['size'])
