"""Recorded states of one function and questions about the facts known there."""
from . import lin
from .absint import Engine, State, C, mkptr, off_add, NOFF, tbits, negate, contains
from .bounds import Hooks
from .models import base_models


class Rec(Hooks):
    """keeps (instruction, callee, args, state) of the calls that `pred` selects, and of the normal returns"""

    def __init__(self, pred):
        self.pred = pred
        self.calls = []
        self.after = []
        self.rets = []

    def call(self, e, st, i, fn, a):
        if e.final and fn is not None and self.pred(fn, i):
            self.calls.append((i, fn, a, st.copy()))

    def after_call(self, e, st, i, fn, a, res):
        if e.final and fn is not None and self.pred(fn, i):
            self.after.append((i, fn, a, st.copy(), res))

    def ret(self, e, st, i):
        if e.final:
            self.rets.append((i, st.copy()))


def analyse(prog, fn, pred=lambda f, i: False, models=None, opts=None, hooks=None):
    m = base_models()
    m.update(models or {})
    h = hooks or Rec(pred)
    e = Engine(prog, fn, m, h, opts or {})
    e.run()
    return e, h


class Q(object):
    """questions about the facts at one state"""

    def __init__(self, e, st):
        self.e = e
        self.st = st

    def under(self, facts):
        s = self.st.copy()
        self.e.add_facts(s, list(facts))
        return Q(self.e, s)

    def cond(self, t, val):
        return self.under(self.e.cond_facts(t, val))

    def contra(self):
        """adds the negated guards of the implications whose consequence is refuted here"""
        r = self
        for _ in range(4):
            new = []
            fs = r.st.node.fset()
            for f in fs:
                if f[0] == 'imp':
                    n = negate(f[1])
                    if n is not None and n not in fs and (r.under(f[2]).impossible() or r.under([f[1]]).impossible()):
                        new.append(n)
            if not new:
                break
            r = r.under(sorted(new, key=repr))
        return r

    def impossible(self):
        return self.e.impossible(self.st)

    def ule(self, a, b):
        return self.e.holds(self.st.node, ('ule', a, b))

    def ult(self, a, b):
        return self.e.holds(self.st.node, ('ult', a, b))

    def eq(self, a, b):
        return self.e.holds(self.st.node, ('eq', a, b)) or self.e.holds(self.st.node, ('eq', b, a)) or a == b

    def ne(self, a, b):
        return self.e.holds(self.st.node, ('ne', a, b)) or self.e.holds(self.st.node, ('ne', b, a))

    def true(self, t):
        return ('true', t) in self.st.node.fset() or self.e.holds(self.st.node, ('ne', t, C(0, tbits(t))))

    def false(self, t):
        return ('false', t) in self.st.node.fset()

    def nowrap(self, a, b, bits=32):
        """a + b <= 2^bits - 1"""
        e = self.e
        c = e.ctx(self.st.node)
        return c.entails(lin.add(lin.add(e.lz(c, a), e.lz(c, b)), lin.const(-((1 << bits) - 1))))

    def facts(self):
        return self.st.node.facts()


def members(prog, cls, prefix=''):
    """name -> (offset, size) of the data members of a class, by unqualified class name"""
    r = {}
    for n, t in prog.types.items():
        if n.split('::')[-1] == cls or n == cls:
            for m in t['m']:
                r[m[0]] = (m[1], m[2] if len(m) > 2 else None)
    return r


def dict_or(d, k, what):
    from .build import Broken
    if k not in d:
        raise Broken('%s not found' % what)
    return d[k]
