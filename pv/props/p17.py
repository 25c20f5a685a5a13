"""Functions that only inspect a stream leave its position and exception mask as they found them, on every way out."""
from .. import ir, stream
from ..build import Broken
from ..stream import kind, is_throw, edges

# public functions that take the caller's stream; the ones in KEEPS are shown to restore it and may be called by the others
TARGETS = [('pe_bliss::pe_base::pe_base', 'std::istream&', True), ('pe_bliss::pe_base::get_pe_type', 'std::istream&', True),
           ('pe_bliss::calculate_checksum', 'std::istream&', True), ('pe_bliss::pe_utils::get_file_size', 'std::istream&', False)]
KEEPS = ('pe_bliss::pe_utils::get_file_size',)
FAILS = ('read', 'getline', 'get', 'ignore', 'readsome', 'peek', 'putback', 'unget')


def run(ck):
    p = ir.load('acc')
    n = 0
    ops = 0
    for name, par, exc in TARGETS:
        fs = [f for f in p.named(name) if par in f.params]
        if not fs:
            raise Broken('P17: %s not found' % name)
        done = set()
        for f in fs:
            e, h = stream.analyse(p, f)
            if not h.ops:
                raise Broken('P17: no stream operation in ' + f.dem)
            ops += len(h.ops)
            bad = walk(e, h, exc)
            n += 1
            for way in ('return', 'exception'):
                if way == 'exception' and not exc:
                    continue
                if (f.short, way) in done:
                    continue
                b = [x for x in bad if x[0] == way]
                done.add((f.short, way))
                ck.ob(not b, '%s: %s' % (f.short, way), b[0][2] if b else f.where, '; '.join(sorted(set(x[1] for x in b))))
    ck.need(n, 4, 'functions that inspect a stream')
    ck.count('stream operations', ops)
    ck.level = 'proof'
    ck.trusted = ['clang 18 front end', 'pv/absint.py, pv/stream.py', 'std::istream semantics of tellg, seekg, clear and exceptions']
    ck.assumptions = ['exceptions thrown inside the library derive from std::exception']
    ck.explanation = ('Typestate of the stream argument over normal and exceptional control flow: at each exit the last position change is a seek to the position taken before anything moved it, '
                      'made after the error flags were cleared, and the last exception mask set is the one read before it was changed.')


def walk(e, h, exc):
    """states: (position, mask, flags, original positions, original masks)"""
    fn = e.fn
    bad = []
    todo = [(0, 0, ('orig', 'orig', 'entry', frozenset(), frozenset()))]
    seen = set()
    while todo:
        b, k, s = todo.pop()
        if (b, k, s) in seen:
            continue
        seen.add((b, k, s))
        end = False
        for i in fn.blocks[b][k:]:
            if i.is_call():
                op = h.ops.get((b, i.idx))
                if op:
                    s = step(e, h, (b, i.idx), op, s)
                if i.op == 'invoke':
                    if (b, i.get('nd')) in e.out and not noreturn(op, i, e):
                        todo.append((i.get('nd'), 0, s))
                    if (b, i.get('ud')) in e.out and not restoring(op):
                        todo.append((i.get('ud'), 0, s))
                    end = True
                    break
                if may_throw(e, i, op):
                    leave(bad, 'exception', s, i, exc)
                if noreturn(op, i, e):
                    end = True
                    break
            elif i.op == 'ret':
                leave(bad, 'return', s, i, exc)
            elif i.op == 'resume':
                leave(bad, 'exception', s, i, exc)
        if end:
            continue
        for t in edges(e, b):
            todo.append((t, 0, s))
    return bad


def restoring(op):
    return op is not None and op[1].std and kind(op[1]) in ('clear', 'seekg', 'exceptions')


def noreturn(op, i, e):
    f = e.prog.fns.get(i.callee) if i.callee else None
    return bool(f and f.raw.get('nr'))


def may_throw(e, i, op):
    if i.get('nu'):
        return False
    if i.op == 'invoke':
        return False
    c = i.callee or ''
    f = e.prog.fns.get(i.callee) if i.callee else None
    if c in ('__cxa_throw', '__cxa_rethrow'):
        return True
    if f is None or c.startswith(('llvm.', '__cxa', '__clang')):
        return False
    if op is not None and f.std:
        return False        # status and positioning calls throw only through the exception mask, which is off while the stream is in use
    return not f.raw.get('nu') and not f.std


def step(e, h, at, op, s):
    pos, mask, flags, tells, masks = s
    i, fn, a, st = op
    k = kind(fn)
    if k == 'repo':
        if fn.name in KEEPS:
            return s
        return ('moved', mask if not fn.name.endswith('::exceptions') else 'changed', 'maybe', tells, masks)
    if k == 'tellg':
        if pos == 'orig' and flags != 'maybe':
            tells = tells | frozenset([at])
        return (pos, mask, flags, tells, masks)
    if k == 'exceptions':
        if len(a) == 1:
            if mask == 'orig':
                masks = masks | frozenset([h.res[at][0]])
            return (pos, mask, flags, tells, masks)
        return (pos, 'orig' if a[1] in masks else 'changed', flags, tells, masks)
    if k == 'clear':
        return (pos, mask, 'clear' if len(a) == 1 or a[1] == ('c', 0, a[1][-1]) else flags, tells, masks)
    if k == 'seekg':
        ok = flags in ('entry', 'clear') and len(a) == 3 and any(stream.same_tell(h.res[t][0], a[1]) for t in tells)
        return ('orig' if ok else 'moved', mask, flags, tells, masks)
    if k in stream.STATUS:
        return s
    return ('moved', mask, 'maybe', tells, masks)


def leave(bad, way, s, i, exc):
    if s[0] != 'orig':
        bad.append((way, 'the stream position is not restored', i.loc))
    if exc and s[1] != 'orig':
        bad.append((way, 'the exception mask of the stream is not restored', i.loc))
