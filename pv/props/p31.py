"""Rebasing: which places of the image are changed by rebase_image, and to what."""
from .. import ir, post, lin
from ..absint import C, tbits, mkptr, subst
from ..build import Broken
from ..models import slen
from ..summ import fns, modlin
from .p05 import throws, plus1

NS = 'pe_bliss::'
PB = NS + 'pe_base::'
IMG = ('arg', 0)


class R(post.Rec):
    def __init__(self):
        post.Rec.__init__(self, lambda f, i: False)
        self.datacalls = []
        self.stores, self.writers, self.setbase, self.getbase = [], [], [], []

    def stored(self, e, st, i, b, o, sz, v):
        if e.final and b[0] != 'alloca':
            self.stores.append((i, b, o, sz, v, st.copy()))

    def copied(self, e, st, i, db, do, sb, so, n):
        if e.final and db[0] != 'alloca':
            v = e.read(st, sb, so, n[1]) if n[0] == 'c' and n[1] in (4, 8) else None
            self.stores.append((i, db, do, n[1] if n[0] == 'c' else None, v, st.copy()))

    def call(self, e, st, i, fn, a):
        if not e.final or fn is None or not fn.name.startswith(PB) or not a:
            return
        n = fn.name[len(PB):]
        if n == 'section_data_from_rva':
            self.datacalls.append((i, a))
        if n == 'get_image_base':
            self.getbase.append(e.asptr(a[1]))
        elif n.startswith('set_image_base'):
            self.setbase.append((i, n, a, st.copy()))
        elif not fn.mangled.startswith('_ZNK') and n != 'section_data_from_rva':
            self.writers.append((i, n))


def place_of(b):
    """the address whose data the library hands out"""
    if b[0] == 'sec' and b[1] == mkptr(IMG) and b[2][0] == 'at':
        return b[2][1]
    if b[0] == 'obj' and b[1][0] == 'call' and b[1][2] == PB + 'section_data_from_rva' and b[1][3] == mkptr(IMG):
        return b[1][4]
    return None


def elem(ptr):
    """(sequence, index) of an element"""
    b = ptr[1] if ptr[0] == 'p' else None
    if b is not None and ptr[2] == (0, ()) and b[0] == 'obj' and b[1][0] == 'elem':
        return b[1][2], b[1][3]
    return None


def strip(t):
    while t[0] == 'cast' and t[2] == 'zext':
        t = t[4]
    return t


def parts(t):
    """the table and the entry whose addresses are added"""
    if t[:3] != ('op', 32, 'add'):
        return None
    for x, y in ((t[3], t[4]), (t[4], t[3])):
        x, y = strip(x), strip(y)
        if x[0] == 'call' and y[0] == 'call' and x[2] == NS + 'relocation_table::get_rva' and y[2] == NS + 'relocation_entry::get_rva':
            a, b = elem(x[3]), elem(y[3])
            if a and b and a[0][:3] == ('sv', ('arg', 1), (0, ())):
                l = b[0]
                if l[0] == 'sv' and l[1][0] == 'obj' and l[1][1][0] == 'call' and l[1][1][2] == NS + 'relocation_table::get_relocations' and l[1][1][3] == x[3]:
                    return a, b, y[3]
    return None


def whole(e, ver, idx):
    """the loop in which the index runs over all elements, or None"""
    for hd, body in e.cfg.loops.items():
        m = e.loopsub.get(hd)
        if m is None:
            continue
        esub, bsub = m
        if subst(idx, esub) == idx:
            continue
        ent = [(b, e.out[(b, hd)]) for b in e.cfg.pred[hd] if b not in body and (b, hd) in e.out]
        back = [(b, e.out[(b, hd)]) for b in e.cfg.pred[hd] if b in body and (b, hd) in e.out]
        ok = bool(ent and back)
        for b, st in ent:
            c = e.ctx(st.node)
            d = e.lz(c, subst(idx, esub))
            ok = ok and c.entails(d)
        for k, (b, st) in enumerate(back):
            c = e.ctx(st.node)
            n = subst(idx, bsub[k])
            d = lin.add(lin.add(e.lz(c, n), e.lz(c, idx), 1, -1), lin.const(-1))
            ok = ok and (n in plus1(e, idx) or c.entails(d) and c.entails(lin.scale(d, -1)))
        some = False
        for b in body:
            for s in e.cfg.succ[b]:
                if s not in body and (b, s) in e.out and not throws(e, s):
                    some = True
                    st = e.out[(b, s)]
                    c = e.ctx(st.node)
                    ok = ok and c.entails(lin.add(e.lz(c, slen(ver)), e.lz(c, idx), 1, -1))
        if ok and some:
            return hd
    return None


def skipped(e, inner, blocks, allowed):
    """edge on which an entry is left out that is not padding, or None"""
    body = e.cfg.loops[inner]
    reach = {b: e.cfg.reachable_from(b, avoid=(inner,)) for b in body}
    for b in sorted(body):
        if not (reach[b] & blocks) and b != inner:
            continue
        if b in blocks:
            continue
        for s in e.cfg.succ[b]:
            if s not in body or (b, s) not in e.out or s in blocks or s != inner and reach[s] & blocks:
                continue
            if throws(e, s):
                continue
            q = post.Q(e, e.out[(b, s)])
            if q.impossible():
                continue
            if not allowed(q):
                return b, s
    return None


def empty(e, q, seq):
    c = e.ctx(q.st.node)
    return c.entails(e.lz(c, slen(seq)))


def kinds(q, entry):
    r = []
    for f in q.facts():
        for x in f[1:]:
            if isinstance(x, tuple):
                y = strip(x)
                if y[0] == 'call' and y[2] == NS + 'relocation_entry::get_type' and y[3] == entry:
                    r.append(x)
    return r


def is_pad(e, q, entry):
    return any(q.eq(x, C(0, tbits(x))) for x in kinds(q, entry))


def not_pad(e, q, entry):
    return any(q.ne(x, C(0, tbits(x))) for x in kinds(q, entry))


def variant(ck, p, f, w):
    h = R()
    e, _ = post.analyse(p, f, hooks=h)
    W = f.where
    nm = 'rebase of %d-bit images' % (w * 8)
    if not h.rets:
        raise Broken('P31: %s never returns' % nm)
    bad = None
    entry = None
    blocks = set()
    tab = ent = None
    for i, b, o, sz, v, st in h.stores:
        at = place_of(b)
        pr = parts(at) if at else None
        if at is None:
            bad = bad or (i.loc, 'writes something that is not data of the image')
            continue
        zero = o == (0, ()) if b[0] == 'obj' else o == (0, ((e.mkcast('zext', 32, 64, at), 1),))
        if pr is None or not zero:
            bad = bad or (i.loc, 'writes to a place that is not the sum of the address of a table and that of one of its entries')
            continue
        if sz != w:
            bad = bad or (i.loc, 'changes %s bytes where a value has %d' % (sz, w))
            continue
        tab, ent, entry = pr
        blocks.add(i.bb)
        q = post.Q(e, st)
        if not not_pad(e, q, entry):
            bad = bad or (i.loc, 'a padding entry changes the image')
        why = value(e, h, v, w * 8, at)
        if why:
            bad = bad or (i.loc, why)
    ck.ob(not bad and bool(blocks), nm + ': places and values written', bad[0] if bad else W, bad[1] if bad else 'no value of the image is changed')
    ck.ob(len(h.stores) == 1, nm + ': each value is changed once', W, 'a value is written at %d places of the loop' % len(h.stores))
    ck.ob(not h.writers, nm + ': nothing else of the image is changed', h.writers[0][0].loc if h.writers else W, 'changes the image by %s' % (h.writers[0][1] if h.writers else ''))
    if blocks:
        a, b = whole(e, *tab), whole(e, *ent)
        ck.ob(a is not None, nm + ': every table', W, 'not every relocation table is gone through')
        ck.ob(b is not None, nm + ': every entry', W, 'not every entry of a table is gone through')
        if b is not None:
            s = skipped(e, b, blocks, lambda q: is_pad(e, q, entry))
            ck.ob(s is None, nm + ': only padding is left out', W if s is None else e.fn.blocks[s[0]][-1].loc, 'an entry that is not padding is left out')
        if a is not None and b is not None and a != b and b in e.cfg.loops[a]:
            s = skipped(e, a, e.cfg.loops[b], lambda q: empty(e, q, ent[0]))
            ck.ob(s is None, nm + ': only empty tables are left out', W if s is None else e.fn.blocks[s[0]][-1].loc, 'the entries of a table are left out')
    hd = [i for i, a in h.datacalls if a[-1] not in (C(1, 1), C(1, 8))]
    ck.ob(not hd, nm + ': the headers count as part of the image', hd[0].loc if hd else W, 'the place written is found by other rules than the place read')
    arg = e.argterm(f.args[2]['id'])
    good = len(h.setbase) == 1 and all(modlin(e, a[1], 64) == modlin(e, arg, 64) and a[0] == mkptr(IMG) and (n.endswith('_64') or w == 4) for i, n, a, st in h.setbase)
    if good:
        sb = h.setbase[0][0].bb
        good = all(i.bb == sb or i.bb not in e.cfg.reachable_from(0, avoid=(sb,)) for i, st in h.rets)
        good = good and not any(sb in body for body in e.cfg.loops.values())
    ck.ob(good, nm + ': the image base becomes the new one', h.setbase[0][0].loc if h.setbase else W, 'the image base is not set to the given one on every path')
    ck.count('variants', 1)


def value(e, h, v, bits, at):
    if v is None:
        return 'what is written is not known'
    m = modlin(e, v, bits)
    old = new = base = 0
    for t, k in m.items():
        if t is None:
            return 'a constant is added to a value'
        s = strip(t[2] if t[0] == 'low' else t)
        if s[0] == 'cast' and s[2] == 'trunc':
            s = s[4]
        if s[0] == 'call' and s[2].startswith(PB + 'section_data_from_rva') and s[3] == mkptr(IMG) and s[4] == at and s[1] == bits and C(0, 32) in s and k == 1:
            old += 1
        elif s[0] == 'arg' and s[2] == 2 and k == 1:
            new += 1
        elif k == (1 << bits) - 1 and (s[0] == 'ld' and (s[2], s[3]) in h.getbase or s[0] == 'call' and s[2].startswith(PB + 'get_image_base')):
            base += 1
        else:
            return 'something else than the difference of the image bases is added to a value'
    return None if (old, new, base) == (1, 1, 1) else 'a value is not increased by the difference of the image bases'


class D(post.Rec):
    def __init__(self):
        post.Rec.__init__(self, lambda f, i: False)
        self.to = []

    def call(self, e, st, i, fn, a):
        if e.final and fn is not None and fn.name.startswith(NS + 'rebase_image_base'):
            self.to.append((i, fn, a, st.copy()))


def dispatch(ck, p):
    f = fns(p, NS + 'rebase_image')[0]
    h = D()
    e, _ = post.analyse(p, f, hooks=h)
    kinds = {}
    for i, fn, a, st in h.to:
        w = 64 if 'headers64' in fn.dem else 32
        q = post.Q(e, st)
        good = False
        for t in [x for k in q.facts() for x in k[1:] if isinstance(x, tuple)]:
            if strip(t)[0] == 'call' and strip(t)[2] == PB + 'get_pe_type' and strip(t)[3] == mkptr(IMG):
                good = good or q.eq(t, C(1 if w == 64 else 0, tbits(t))) or q.ne(t, C(0 if w == 64 else 1, tbits(t)))
        good = good and [modlin(e, x, 64) for x in a] == [modlin(e, e.argterm(x['id']), 64) for x in f.args]
        kinds[w] = kinds.get(w, True) and good
    ck.ob(kinds == {32: True, 64: True}, 'rebasing follows the type of the image', f.where, 'the variant for the other image type is used')


def run(ck):
    p = ir.load('acc')
    fs = fns(p, NS + 'rebase_image_base')
    by = {}
    for f in fs:
        by[8 if 'headers64' in f.dem else 4] = f
    if set(by) != {4, 8}:
        raise Broken('P31: the two variants of rebasing were not found')
    for w in (4, 8):
        variant(ck, p, by[w], w)
    dispatch(ck, p)
    ck.level = 'proof'
    ck.trusted = ['clang 18 front end', 'pv/absint.py, pv/summ.py', 'data accessors give the bytes of the address (P18, P27)', 'get_rva and get_type of the relocation objects (P11, P23)']
    ck.explanation = ('All writes of the rebasing functions are collected with address, width and value as terms; the address must be the sum of a table and one of its entries, the value the one read '
                      'there plus the new minus the old image base modulo the width, in loops over all tables and entries; the only entries passed over have the padding type.')
