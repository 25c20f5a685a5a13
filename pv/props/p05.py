"""What a successful load guarantees: facts that must be known where the loader returns or keeps a section."""
from .. import post, lin
from ..absint import C, mkptr, tbits, contains
from ..build import Broken
from ..models import sver, slen
from ._load import prog, the, models, acc, util, PB


def run(ck):
    p = prog()
    rp = the(p, 'pe_base::read_pe')
    this = mkptr(('arg', 0))
    sh = post.members(p, 'image_section_header')
    hdr = post.dict_or(post.members(p, 'section'), 'header_', 'section header member')[0]
    F = {}
    for n, k in (('Misc', 'VS'), ('VirtualAddress', 'VA'), ('SizeOfRawData', 'RAW'), ('PointerToRawData', 'PTR')):
        F[k] = hdr + post.dict_or(sh, n, 'section header field ' + n)[0]
    dos = post.dict_or(post.members(p, 'pe_base'), 'dos_header_', 'DOS header member')[0]
    lfa = dos + post.dict_or(post.members(p, 'image_dos_header'), 'e_lfanew', 'e_lfanew')[0]

    secs = []
    hdr_reads = []
    later = []

    def kept(e, ptr):
        b, o = e.asptr(ptr)
        return b[0] == 'obj' and b[1][0] == 'elem'

    class R(post.Rec):
        def after_call(self, e, st, i, fn, a, res):
            if fn is None or not e.final:
                return
            if fn.name == 'std::istream::read':
                b, o = e.asptr(a[1])
                if b[0] == 'obj' and b[1][:3] == ('call', 64, 'nt_headers_ptr'):
                    hdr_reads.append((i, o, a, st.copy()))
                elif b[0] == 'alloca' and a[2] == C(40, 64):
                    secs.append((i, b, o, st.copy()))
            post.Rec.after_call(self, e, st, i, fn, a, res)

        def call(self, e, st, i, fn, a):
            post.Rec.call(self, e, st, i, fn, a)
            if e.final and fn is not None and a and fn.name.startswith('pe_bliss::section::set_') and kept(e, a[0]):
                later.append(i)

        def stored(self, e, st, i, base, off, sz, v):
            if e.final and base[0] == 'obj' and base[1][0] == 'elem' and not off[1] and hdr <= off[0] < hdr + 40:
                later.append(i)
    h = R(lambda f, i: f.name.endswith(('vector::push_back', 'vector::emplace_back', 'vector::insert', 'get_file_size', 'set_number_of_rvas_and_sizes')))
    e, _ = post.analyse(p, rp, models=models(p), opts={'phiguard': True}, hooks=h)
    base = [x for x in hdr_reads if x[1] == (0, ())]
    if len(base) != 1 or not h.rets:
        raise Broken('P05: the read of the image headers was not recognised')
    E = e.epoch_of(base[0][3], ('arg', 0))
    W = 'src/pe_lib/pe_base.cpp (pe_base::read_pe)'

    def g(n, bits=32):
        return acc(e, None, n, bits, this, E)

    SA, FA = g('get_section_alignment'), g('get_file_alignment')
    SOI = util('align_up', 32, g('get_size_of_image'), SA)
    for ri, (i, st) in enumerate(h.rets):
        q = post.Q(e, st)
        w = '%s (pe_base::read_pe returns)' % i.loc

        def ob(ok, key, msg):
            ck.ob(ok, key, w, msg)
        lf = e.read(st, ('arg', 0), (lfa, ()), 4)
        lf0 = ('ld', 32, ('arg', 0), (lfa, ()), 'init', 'v')
        ob(any(q.eq(x, C(0, tbits(x))) for l in (lf, lf0) for x in aligned4(e, l)), 'header offset is DWORD-aligned',
           'an image whose PE header offset is not a multiple of 4 is not rejected')
        ob(q.eq(g('get_pe_signature'), C(0x4550, 32)), 'PE signature', 'an image without the PE signature is not rejected after its headers are read')
        ob(e.epoch_of(st, ('arg', 0)) == E or e.epoch_of(st, ('arg', 0))[0] in ('m', 'l'), 'headers unchanged after validation', 'image headers are read or changed again after they were validated')
        nr = e.models[PB + 'get_number_of_rvas_and_sizes'](e, st, i, None, [this])
        nrs = set([nr])
        for f in q.facts():
            find(f, lambda t: t[0] in ('mphi', 'ld') and len(t) > 4 and (t[3:5] == (('arg', 0), ('g', 'nrvas')) or (t[2:4] == (('arg', 0), ('nrvas', ())) and t[4] == E)), nrs)
        sets = [x for x in h.calls if x[1].name == PB + 'set_number_of_rvas_and_sizes']
        ob(any(q.ule(x, C(16, 32)) for x in nrs) and all(post.Q(e, x[3]).ule(x[2][1], C(16, 32)) for x in sets), 'at most 16 data directories', 'more than 16 data directories may remain after loading')
        ob(q.ule(e.mkcast('zext', 16, 32, g('get_number_of_sections', 16)), C(96, 32)), 'at most 96 sections', 'an image with more than 96 sections is not rejected')
        ob(q.eq(g('get_magic'), g('get_needed_magic')), 'optional header magic', 'an optional header magic of the other image kind is not rejected')
        for n, x in (('section', SA), ('file', FA)):
            ob(pow2(e, q, x), '%s alignment is a power of two' % n, 'a %s alignment that is not a power of two is not rejected' % n)
        r = q.under([('ne', FA, SA)])
        ob(r.impossible() or r.ule(FA, SA) or q.ule(FA, SA), 'file alignment at most section alignment', 'a file alignment above the section alignment is not rejected')
        ob(r.impossible() or r.ule(C(512, 32), FA), 'file alignment at least 512 unless equal to section alignment', 'a file alignment below 512 that differs from the section alignment is not rejected')
        ob(q.ne(SOI, C(0, 32)), 'image size is not zero', 'an image whose aligned size is zero is not rejected')

        # headers end before the first section
        so = post.dict_or(post.members(p, 'pe_base'), 'sections_', 'section list member')[0]
        okh = False
        vers = set()
        for f in q.facts():
            find(f, lambda t: t[0] == 'ld' and len(t) == 6 and t[3] == (F['VA'], ()) and t[2][0] == 'obj' and t[2][1][0] == 'elem' and t[2][1][3] == C(0, 64), vers)
        for first in vers:
            ver = first[2][1][2]
            if ver[0] == 'mphi' and (ver[3], ver[4]) != (('arg', 0), ('s', so)):
                continue
            ln = slen(ver)
            ne = q.under([('ne', ln, C(0, 64)), ('ult', C(0, 64), ln)])
            okh = okh or ne.ule(g('get_size_of_headers'), first)
        ob(okh, 'headers end before the first section', 'a header size above the first section address is not rejected')
    ck.ob(not later, 'sections stay as they were when validated', later[0].loc if later else W, 'the header of a section is changed after the section was validated and kept')
    ck.need(len(h.rets), 1, 'returns of the loader')

    keep = [x for x in h.after if x[1].name.startswith('std::') and on_sections(e, x[2], p)]
    fsz = [x[4] for x in h.after if x[1].name == 'pe_bliss::pe_utils::get_file_size']
    if not keep or not secs:
        raise Broken('P05: no section is read and kept')
    for i, fn, a, st, res in keep:
        pass
    calls = [x for x in h.calls if x[1].name.startswith('std::') and on_sections(e, x[2], p)]
    for i, fn, a, st in calls:
        q = post.Q(e, st)
        w = '%s (pe_base::read_pe keeps a section)' % i.loc
        sb, so = e.asptr(a[-1])
        rd = [x for x in secs if x[1] == sb]
        if not rd:
            raise Broken('P05: the kept section is not the one whose header was read')
        r0 = rd[-1][3]

        def f0(k):
            return e.read(r0, sb, (so[0] + F[k], ()), 4)

        def f1(k):
            return e.read(st, sb, (so[0] + F[k], ()), 4)
        VS, VA, RAW, PTR = f0('VS'), f0('VA'), f0('RAW'), f0('PTR')

        def ob(ok, key, msg):
            ck.ob(ok, key, w, msg)
        ob(q.under([('eq', VS, C(0, 32)), ('eq', RAW, C(0, 32))]).impossible(), 'section is not empty in both file and memory', 'a section whose virtual and raw sizes are both zero is kept')
        ob(q.nowrap(VA, VS), 'section virtual range does not overflow', 'a section whose virtual address plus size exceeds 32 bits is kept')
        ob(q.nowrap(PTR, RAW), 'section raw range does not overflow', 'a section whose file offset plus size exceeds 32 bits is kept')
        ob(q.ule(VS, C(1 << 31, 32)), 'section virtual size at most 2 GB', 'a section with more than 2 GB of virtual size is kept')
        ob(q.ule(RAW, C(1 << 31, 32)), 'section raw size at most 2 GB', 'a section with more than 2 GB of raw data is kept')
        for k in ('VA', 'VS', 'PTR'):
            ob(f1(k) == f0(k), 'section header field %s is kept as read' % k, 'the loader changes %s of a section after reading its header' % k)
        al = ('call', 32, 'pe_bliss::section::get_aligned_virtual_size', mkptr(sb, so), SA)
        als = set()
        for f in q.facts():
            find(f, lambda t: t[:5] == al, als)
        ob(any(q.nowrap(f1('VA'), t) for t in als), 'aligned section end does not overflow', 'a section whose aligned end exceeds 32 bits is kept')
        ob(any(q.ule(e.mkop('add', 32, x, t), SOI) or q.ule(e.mkop('add', 32, t, x), SOI) for t in als for x in (VA, f1('VA'))), 'section lies inside the image',
           'a section that ends beyond the image size is kept')
        # raw data
        qr = q.under([('ne', RAW, C(0, 32)), ('ult', C(0, 32), RAW)])
        raws = alts(qr, f1('RAW'))
        start = util('align_down', 32, PTR, FA)
        tots = [e.mkop('add', 32, start, x) for x in raws]
        lim = [x for t in fsz for x in (e.mkcast('trunc', 64, 32, t), t)]
        ob(any(qr.ule(tot if tbits(l) == 32 else e.mkcast('zext', 32, 64, tot), l) for l in lim for tot in tots), 'section data lies inside the file', 'a section whose raw data extends beyond the end of the file is kept')
        ro = post.dict_or(post.members(p, 'section'), 'raw_data_', 'raw data')[0]
        ver = sver(e, st, mkptr(sb, (so[0] + ro, ())), 1)
        ob(any(qr.eq(slen(v), e.mkcast('zext', 32, 64, x)) for v in alts(qr, ver) for x in raws), 'section holds exactly its declared raw bytes', 'the loaded data of a section does not have its declared raw size')
    ck.need(len(calls), 1, 'sites that keep a section')
    order(ck, p, e, rp, F, SA)
    dos_magic(ck, p)
    ck.level = 'proof'
    ck.trusted = ['clang 18 front end', 'pv/absint.py, pv/lin.py', 'header accessors return the fields they name (P10)', 'alignment helpers compute what they name (P26)']
    ck.explanation = ('Each clause is a fact that must follow from the branch conditions on every path to the normal return of the loader, or to the point where a section is added to the '
                      'image: the loader can then only succeed when the clause holds.')


def alts(q, t):
    """terms known to be equal to t"""
    r = [t]
    for x in r:
        for f in q.facts():
            if f[0] == 'eq' and x in f[1:]:
                for y in f[1:]:
                    if y not in r:
                        r.append(y)
    return r


def find(t, pred, out):
    if isinstance(t, tuple):
        if t and pred(t):
            out.add(t)
        for x in t:
            find(x, pred, out)


def aligned4(e, l):
    r = [e.mkop('and', 32, l, C(3, 32)), e.mkop('urem', 32, l, C(4, 32))]
    for k in ('sext', 'zext'):
        x = e.mkcast(k, 32, 64, l)
        r += [e.mkop('urem', 64, x, C(4, 64)), e.mkop('and', 64, x, C(3, 64))]
    r.append(('op', 32, 'srem', l, C(4, 32)))
    return r


def pow2(e, q, x):
    if q.true(util('is_power_of_2', 1, x)):
        return True
    for y in (e.mkop('sub', 32, x, C(1, 32)), e.mkop('add', 32, x, C(0xFFFFFFFF, 32))):
        if q.eq(e.mkop('and', 32, x, y), C(0, 32)):
            return True
    return False


def on_sections(e, a, p):
    b, o = e.asptr(a[0])
    so = post.dict_or(post.members(p, 'pe_base'), 'sections_', 'section list member')[0]
    return b == ('arg', 0) and o == (so, ())


def order(ck, p, e, rp, F, SA):
    """every section starts where its predecessor ends: at each back edge of some loop over the section list the
    equation VA(k) = VA(k-1) + aligned(k-1) is known, for all k from 1 to the last"""
    good = None
    seen = []
    for hd, body in e.cfg.loops.items():
        backs = [(b, e.out[(b, hd)]) for b in e.cfg.pred[hd] if b in body and (b, hd) in e.out]
        if not backs:
            continue
        allok = True
        rel = None
        for b, st in backs:
            q = post.Q(e, st)
            ok = False
            for f in q.facts():
                if f[0] != 'eq':
                    continue
                r = step(e, q, f, F, SA)
                if r:
                    ok = True
                    rel = r
            allok = allok and ok
        if allok and rel:
            seen.append((hd, rel))
    for hd, (ver, ia, ib) in seen:
        # header facts on entry: ia == 1 ; exit: ia == length ; step 1
        if covers(e, hd, ver, ia) and notpassed(e, hd, ver):
            good = hd
    ck.ob(good is not None, 'sections follow each other without gaps or overlaps', 'src/pe_lib/pe_base.cpp (pe_base::read_pe)',
          'no loop over all sections establishes that each section starts where the previous one ends')


def step(e, q, f, F, SA):
    for x, y in ((f[1], f[2]), (f[2], f[1])):
        if x[0] != 'ld' or x[3] != (F['VA'], ()) or x[2][0] != 'obj' or x[2][1][0] != 'elem':
            continue
        ver, ia = x[2][1][2], x[2][1][3]
        if y[0] != 'op' or y[2] != 'add':
            continue
        for u, v in ((y[3], y[4]), (y[4], y[3])):
            if u[0] != 'ld' or u[3] != (F['VA'], ()) or u[2][0] != 'obj' or u[2][1][0] != 'elem' or u[2][1][2] != ver:
                continue
            ib = u[2][1][3]
            if v[:3] != ('call', 32, 'pe_bliss::section::get_aligned_virtual_size') or v[3] != mkptr(u[2]) or v[4] != SA:
                continue
            c = e.ctx(q.st.node)
            d = lin.add(e.lz(c, ia), e.lz(c, ib), 1, -1)
            d = lin.add(d, lin.const(-1))
            if e.mkop('sub', 64, ia, ib) == C(1, 64) or ia == e.mkop('add', 64, ib, C(1, 64)) or c.entails(d) and c.entails(lin.scale(d, -1)):
                return ver, ia, ib
    return None


def covers(e, hd, ver, ia):
    """the index term ia runs over 1 .. length-1 in the loop with header hd"""
    body = e.cfg.loops[hd]
    ent = [(b, e.out[(b, hd)]) for b in e.cfg.pred[hd] if b not in body and (b, hd) in e.out]
    back = [(b, e.out[(b, hd)]) for b in e.cfg.pred[hd] if b in body and (b, hd) in e.out]
    m = e.loopsub.get(hd)
    if m is None:
        return False
    esub, bsub = m
    from ..absint import subst
    for b, st in ent:
        c = e.ctx(st.node)
        d = lin.add(e.lz(c, subst(ia, esub)), lin.const(-1))
        if not c.entails(d):
            return False
    for k, (b, st) in enumerate(back):
        c = e.ctx(st.node)
        d = lin.add(lin.add(e.lz(c, subst(ia, bsub[k])), e.lz(c, ia), 1, -1), lin.const(-1))
        if e.mkop('sub', 64, subst(ia, bsub[k]), ia) == C(1, 64) or subst(ia, bsub[k]) in plus1(e, ia):
            continue
        if not (c.entails(d) and c.entails(lin.scale(d, -1))):
            return False
    # on every normal exit the index has reached the length
    ok = False
    for b in body:
        for s in e.cfg.succ[b]:
            if s not in body and (b, s) in e.out and not throws(e, s):
                st = e.out[(b, s)]
                c = e.ctx(st.node)
                if not c.entails(lin.add(e.lz(c, slen(ver)), e.lz(c, ia), 1, -1)):
                    return False
                ok = True
    return ok


def plus1(e, x):
    r = [e.mkop('add', 64, x, C(1, 64)), e.mkop('add', 64, C(1, 64), x)]
    if x[:3] == ('op', 64, 'add') and x[4][0] == 'c':
        r.append(e.mkop('add', 64, e.mkop('add', 64, x[3], C(1, 64)), x[4]))
        r.append(('op', 64, 'add', ('op', 64, 'add', x[3], C(1, 64)), x[4]))
        r.append(e.mkop('add', 64, x[3], C(x[4][1] + 1, 64)))
    return r


def notpassed(e, hd, ver):
    """the loop is only left out when there is at most one section"""
    body = e.cfg.loops[hd]
    reach = {}
    for b in range(len(e.cfg.succ)):
        reach[b] = e.cfg.reachable_from(b)
    before = [b for b in reach if b not in body and hd in reach[b]]
    for b in before:
        for s in e.cfg.succ[b]:
            if s in body or hd in reach.get(s, ()) or (b, s) not in e.out or throws(e, s):
                continue
            st = e.out[(b, s)]
            c = e.ctx(st.node)
            ln = slen(ver)
            if not c.entails(lin.add(e.lz(c, ln), lin.const(-1))):
                return False
    return True


def throws(e, b):
    """no normal return is reachable from block b"""
    seen = e.cfg.reachable_from(b)
    for x in seen:
        t = e.fn.blocks[x][-1]
        if t.op == 'ret':
            return False
    return True


def dos_magic(ck, p):
    fs = [f for f in p.named('pe_base::read_dos_header') if len(f.params) == 2]
    if len(fs) != 1:
        raise Broken('P05: DOS header reader not found')
    f = fs[0]
    e, h = post.analyse(p, f, models=models(p))
    mo = post.dict_or(post.members(p, 'image_dos_header'), 'e_magic', 'e_magic')[0]
    out = [k for k, a in enumerate(f.params) if 'image_dos_header' in a][0]
    rd = [1]
    for i, st in h.rets:
        q = post.Q(e, st)
        m = e.read(st, ('arg', out), (mo, ()), 2)
        ok = m[0] == 'ld' and m[4] != 'init' and (q.eq(m, C(0x5a4d, 16)) or q.eq(e.mkcast('zext', 16, 32, m), C(0x5a4d, 32)))
        ck.ob(ok, 'DOS signature', '%s (pe_base::read_dos_header returns)' % i.loc, 'a file without the MZ signature is not rejected')
    ck.need(len(h.rets), 1, 'returns of the DOS header reader')
