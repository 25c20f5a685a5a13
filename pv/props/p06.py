"""Nothing that was read from the input stream is used unless the stream reported success for it."""
from .. import ir, stream, post
from ..absint import C
from ..build import Broken
from ..stream import kind, strong, weak, status_facts, is_throw, edges

READS = ('read', 'get', 'getline', 'readsome', 'ignore', 'peek')


def run(ck):
    p = ir.load('acc')
    fs = [f for f in p.repo_fns() if f.name in ('pe_bliss::pe_base::read_pe', 'pe_bliss::pe_base::read_dos_header', 'pe_bliss::pe_base::get_pe_type')
          and stream.stream_arg(f) is not None]
    # whatever else of the loader takes the stream and reads from it
    nreads = 0
    nseeks = 0
    for f in fs:
        e, h = stream.analyse(p, f)
        W = W0(e, h)
        for at, (i, fn, a, st) in sorted(h.ops.items()):
            if kind(fn) in READS and fn.std:
                nreads += 1
                bad = W.unchecked(at, weak)
                ck.ob(bad is None, '%s: %s' % (f.short, kind(fn)), '%s (%s)' % (i.loc, f.short), 'data may be used without a check that this read succeeded: %s' % bad)
            if kind(fn) == 'seekg' and fallible(e, h, a):
                nseeks += 1
                bad = W.pending((at[0], at[1] + 1), h.res[at][1])
                ck.ob(bad is None, '%s: seek' % f.short, '%s (%s)' % (i.loc, f.short), 'a failed seek is not noticed: %s' % bad)
        bad = W.pending((0, 0), None)
        ck.ob(bad is None, '%s: stream already in a failed state' % f.short, f.where, 'a stream that had failed before is not noticed: %s' % bad)
    ck.need(len(fs), 3, 'functions that read the image')
    ck.need(nreads, 5, 'stream reads')
    ck.count('seeks to positions taken from the file', nseeks)
    ck.level = 'proof'
    ck.trusted = ['clang 18 front end', 'pv/absint.py, pv/stream.py', 'std::istream status semantics: a short read sets eof and fail, a device error sets bad, an operation on a failed stream sets fail']
    ck.explanation = ('Typestate over every path: between a read and the next stream operation or the normal return, an edge must be crossed on which the stream status is known to be good for '
                      'that very read; a test of bad and eof only counts when no unchecked seek or earlier failure can precede the read.')


def fallible(e, h, a):
    if len(a) == 3 and a[1][0] == 'c':
        return False
    t = a[1]
    return not (t[0] == 'c' or from_tell(h, t))


def from_tell(h, t):
    if not isinstance(t, tuple):
        return False
    if t[0] == 'cast':
        return from_tell(h, t[4])
    for at, (i, fn, a, st) in h.ops.items():
        if kind(fn) == 'tellg' and at in h.res and stream.same_tell(h.res[at][0], t):
            return True
    return False


class W0(object):
    def __init__(self, e, h):
        self.e = e
        self.h = h

    def scan(self, b, k, onop, onret):
        """'stop', ('bad', text) or None to go on"""
        for i in self.e.fn.blocks[b][k:]:
            if is_throw(i):
                return 'stop'
            op = self.h.ops.get((b, i.idx))
            if op and kind(op[1]) not in stream.STATUS:
                r = onop((b, i.idx), op)
                if r is not None:
                    return r
            if i.op == 'ret':
                return onret(i)
            if i.op in ('resume', 'unreachable'):
                return 'stop'
        return None

    def walk(self, at, epoch, ok, onop, onret):
        e = self.e
        todo = [at]
        seen = set()
        while todo:
            b, k = todo.pop()
            r = self.scan(b, k, onop, onret)
            if r == 'stop':
                continue
            if r is not None:
                return r
            t = e.fn.blocks[b][-1]
            ss = [s for s in e.cfg.succ[b] if (b, s) in e.out]
            if t.op == 'invoke':
                ss = [s for s in ss if s == t.get('nd')]
            for s in ss:
                if ok(status_facts(e.out[(b, s)].node, epoch)):
                    continue
                if s not in seen:
                    seen.add(s)
                    todo.append((s, 0))
        return None

    def unchecked(self, at, ok):
        """None when every path from the read crosses a sufficient check first"""
        ep = self.e.epoch_of(self.h.res[at][1], ('arg', self.h.k))
        i = self.h.ops[at][0]

        def onop(p, op):
            return 'the next stream operation at %s' % op[0].loc

        def onret(j):
            return 'the return at %s' % j.loc
        if i.op == 'invoke':
            start = (i.get('nd'), 0)
            if ok(status_facts(self.e.out[(i.bb, i.get('nd'))].node, ep)):
                return None
        else:
            start = (at[0], at[1] + 1)
        return self.walk(start, ep, ok, onop, onret)

    def pending(self, at, st):
        """a failure that may be pending at `at` is noticed before or at the next read"""
        k = ('arg', self.h.k)
        ep = self.e.epoch_of(st, k) if st is not None else 'init'

        def onop(p, op):
            n = kind(op[1])
            if n == 'clear':
                return 'stop'
            if n in READS:
                b = self.unchecked(p, strong)
                return 'stop' if b is None else 'read at %s is only checked for end of file or device errors' % op[0].loc
            if n == 'seekg':
                b = self.unchecked(p, strong)
                return 'stop' if b is None else None
            if n == 'repo' and not op[1].name.endswith('::get_file_size'):
                return 'stop'
            return None

        def onret(j):
            return 'stop'
        return self.walk(at, ep, strong, onop, onret)
