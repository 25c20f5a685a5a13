"""Stream typestate: what happens to a std::istream argument along every path of a function.

Works on the engine's final states: the facts known on each control-flow edge name the stream's status calls together
with the epoch of the stream (the operation that last changed it), so that a check counts only for the operation it
follows."""
from . import post
from .absint import C
from .build import Broken
from .props import _load

STATUS = ('bad', 'fail', 'eof', 'good', 'rdstate', 'operator bool', 'operator!', 'gcount', 'rdbuf', 'exceptions')
EXC = ('_ZTISt9exception',)


def smodels(p):
    m = _load.models(p)

    def tolong(e, st, i, fn, a):
        b, o = e.asptr(a[0])
        return e.read(st, b, o, 8)
    m['long'] = tolong
    m['std::fpos::operator long'] = tolong
    return m


class Ops(post.Rec):
    """every call that takes the stream, in order, with its arguments"""

    def __init__(self, k):
        post.Rec.__init__(self, lambda f, i: False)
        self.k = k
        self.ops = {}       # (bb, idx) -> (ins, fn, args)
        self.res = {}
        self.ends = {}

    def mine(self, e, a):
        return [j for j, x in enumerate(a) if x[0] == 'p' and e.asptr(x)[0] == ('arg', self.k)]

    def call(self, e, st, i, fn, a):
        if e.final and fn is not None and self.mine(e, a):
            self.ops[(i.bb, i.idx)] = (i, fn, a, st.copy())

    def after_call(self, e, st, i, fn, a, res):
        if e.final and fn is not None and self.mine(e, a):
            self.res[(i.bb, i.idx)] = (res, st.copy())

    def ret(self, e, st, i):
        if e.final:
            self.ends[(i.bb, i.idx)] = 'ret'


def stream_arg(f):
    off = 0
    n = len(f.args) - len(f.params)
    r = [k + n for k, t in enumerate(f.params) if 'istream' in t or 'basic_istream' in t]
    return r[0] if r else None


def analyse(p, f):
    k = stream_arg(f)
    if k is None:
        raise Broken('no stream argument in ' + f.dem)
    h = Ops(k)
    e, _ = post.analyse(p, f, models=smodels(p), opts={'phiguard': True}, hooks=h)
    return e, h


def kind(fn):
    n = fn.name.split('::')[-1]
    if fn.name.startswith('std::') or fn.std:
        return n
    return 'repo'


def anded(x):
    if x[0] == 'op' and x[2] == 'and' or x[0] == 'call' and x[2] == 'std::operator&':
        return [(x[3], x[4]), (x[4], x[3])]
    return []


def bits(m):
    if m[0] == 'c':
        return m[1]
    if m[0] == 'op' and m[2] == 'or' or m[0] == 'call' and m[2] == 'std::operator|':
        a, b = bits(m[3]), bits(m[4])
        return None if a is None or b is None else a | b
    return None


def status_facts(node, epoch):
    """positive knowledge about the stream at the given epoch"""
    r = set()
    for f in node.fset():
        if f[0] in ('true', 'false') and f[1][0] == 'call' and f[1][2].split('::')[0] == 'std':
            ep = f[1][-1]
            if not (isinstance(ep, tuple) and ep and ep[0][0] == epoch):
                continue
            r.add((f[0], f[1][2].split('::')[-1]))
        elif f[0] == 'eq' and any(anded(x) for x in f[1:]) and any(x[0] == 'c' and x[1] == 0 for x in f[1:]):
            for x in f[1:]:
                for u, m in anded(x):
                    if u[0] == 'call' and u[2].endswith('basic_ios::rdstate') and u[-1][0][0] == epoch and bits(m) is not None:
                        if bits(m) & 1:
                            r.add(('false', 'bad'))
                        if bits(m) & 2:
                            r.add(('false', 'eof'))
                        if bits(m) & 5 == 5:
                            r.add(('false', 'fail'))
        elif f[0] in ('eq', 'ne') and any(x[0] == 'call' and x[2].split('::')[-1] in ('rdstate', 'gcount') for x in f[1:]):
            for x, y in ((f[1], f[2]), (f[2], f[1])):
                if x[0] == 'call' and x[-1][0][0] == epoch:
                    if x[2].endswith('rdstate') and f[0] == 'eq' and y[0] == 'c' and y[1] == 0:
                        r.add(('true', 'good'))
                    if x[2].endswith('gcount') and f[0] == 'eq':
                        r.add(('true', 'gcount'))
    return r


def strong(s):
    """no failure of any kind"""
    return ('false', 'fail') in s or ('true', 'good') in s or ('true', 'operator bool') in s or ('true', 'bool') in s or ('false', 'operator!') in s or ('true', 'gcount') in s


def weak(s):
    """no short read and no device error, provided nothing had failed before"""
    return strong(s) or (('false', 'bad') in s and ('false', 'eof') in s)


def is_throw(i):
    return i.is_call() and (i.callee or '') in ('__cxa_throw', '__cxa_rethrow', '__cxa_allocate_exception')


def edges(e, b, typed=True):
    """feasible successors of block b; of an exception type test for std::exception only the matching side"""
    blk = e.fn.blocks[b]
    t = blk[-1]
    ss = [s for s in e.cfg.succ[b] if (b, s) in e.out]
    if typed and t.op == 'br' and t.get('v') is not None:
        m = exc_test(e.fn, t)
        if m:
            s = t.get('s')[0] if m == 'eq' else t.get('s')[1]
            return [s]
    return ss


def exc_test(fn, t):
    v = t.get('v')
    c = fn.defs.get(v) if isinstance(v, int) else None
    if c is None or c.op != 'icmp':
        return None
    for x in c.get('a'):
        if isinstance(x, int):
            d = fn.defs.get(x)
            if d is not None and d.is_call() and (d.callee or '').startswith('llvm.eh.typeid.for'):
                if any(n in repr(d.get('a')) for n in EXC):
                    return c.get('pr')
    return None


def same_tell(res, t):
    """t is the position that a tellg call returned (the engine keeps its two words apart)"""
    if res == t:
        return True
    return t[0] == 'op' and t[2] == 'xv' and t[3] == res and t[4][1] == 0
