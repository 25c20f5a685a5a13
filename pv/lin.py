"""Exact linear inequality reasoning over integers: a conjunction of  sum(c_i*x_i) + k <= 0  facts and
entailment by Fourier-Motzkin elimination with integer tightening.  Sound: `entails` answers True only
when the negated goal together with the facts is infeasible; on size overflow it answers False."""
from math import gcd


def add(a, b, ka=1, kb=1):
    """ka*a + kb*b over {atom: coef, 1: const}"""
    r = {}
    for x, c in a.items():
        if c:
            r[x] = ka * c
    for x, c in b.items():
        v = r.get(x, 0) + kb * c
        if v:
            r[x] = v
        else:
            r.pop(x, None)
    return r


def const(k):
    return {1: k} if k else {}


def scale(a, k):
    return dict((x, c * k) for x, c in a.items()) if k else {}


def norm(c):
    """normalises sum<=0 ; returns None when trivially true, False when contradictory"""
    g = 0
    for x, v in c.items():
        if x != 1:
            g = gcd(g, abs(v))
    k = c.get(1, 0)
    if g == 0:
        return None if k <= 0 else False
    if g > 1:
        r = dict((x, v // g) for x, v in c.items() if x != 1)
        # sum*g + k <= 0  ->  sum <= floor(-k/g)  -> sum + ceil(k/g) <= 0
        kk = -((-k) // g)
        if kk:
            r[1] = kk
        return r
    return c


def key(c):
    return frozenset((x, v) for x, v in c.items() if x != 1)


def infeasible(cons, cap=600):
    cur = {}
    for c in cons:
        n = norm(c)
        if n is None:
            continue
        if n is False:
            return True
        k = key(n)
        o = cur.get(k)
        if o is None or n.get(1, 0) > o.get(1, 0):
            cur[k] = n
    while True:
        # contradiction between c and -c is found by elimination
        occ = {}
        for k, c in cur.items():
            for x, v in c.items():
                if x == 1:
                    continue
                e = occ.setdefault(x, [0, 0])
                e[0 if v > 0 else 1] += 1
        if not occ:
            return False
        # drop constraints with a variable bounded on one side only
        best = None
        for x, (p, n) in occ.items():
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, x)
        x = best[1]
        pos = []
        neg = []
        nxt = {}
        for k, c in cur.items():
            v = c.get(x, 0)
            if v > 0:
                pos.append((v, c))
            elif v < 0:
                neg.append((-v, c))
            else:
                nxt[k] = c
        for vp, cp in pos:
            for vn, cn in neg:
                g = gcd(vp, vn)
                r = add(cp, cn, vn // g, vp // g)
                n = norm(r)
                if n is None:
                    continue
                if n is False:
                    return True
                k = key(n)
                o = nxt.get(k)
                if o is None or n.get(1, 0) > o.get(1, 0):
                    nxt[k] = n
                    if len(nxt) > cap:
                        return False
        cur = nxt
        if not cur:
            return False


class Ctx(object):
    """persistent conjunction of linear facts with an atom index"""

    def __init__(self, parent=None):
        self.parent = parent
        self.facts = list(parent.facts) if parent else []
        self.index = dict((k, list(v)) for k, v in parent.index.items()) if parent else {}
        self.ranges = dict(parent.ranges) if parent else {}
        self.memo = {}

    def add(self, c):
        n = norm(c)
        if n is None:
            return
        if n is False:
            n = {1: 1}
        i = len(self.facts)
        self.facts.append(n)
        for x in n:
            if x != 1:
                self.index.setdefault(x, []).append(i)
        self.memo = {}

    def relevant(self, atoms, depth):
        seen = set(atoms)
        fs = set()
        front = list(atoms)
        for d in range(depth):
            nf = []
            for a in front:
                for i in self.index.get(a, ()):
                    if i in fs:
                        continue
                    fs.add(i)
                    for x in self.facts[i]:
                        if x != 1 and x not in seen:
                            seen.add(x)
                            nf.append(x)
            front = nf
            if not front:
                break
        return fs, seen

    def entails(self, goal, depth=4):
        """goal: linear g meaning g <= 0"""
        g = norm(goal)
        if g is None:
            return True
        if g is False:
            g = {1: 1}
        k = (frozenset(g.items()), depth)
        if k in self.memo:
            return self.memo[k]
        neg = add(const(1), g, 1, -1)  # 1 - g <= 0
        atoms = [x for x in g if x != 1]
        res = False
        for d in ((1, 2, depth) if depth > 2 else (depth,)):
            fs, seen = self.relevant(atoms, d)
            cons = [self.facts[i] for i in fs]
            for x in seen:
                lo, hi = self.ranges.get(x, (None, None))
                if lo is not None:
                    cons.append({x: -1, 1: lo} if lo else {x: -1})
                if hi is not None:
                    cons.append({x: 1, 1: -hi} if hi else {x: 1})
            cons.append(neg)
            if infeasible(cons):
                res = True
                break
        self.memo[k] = res
        return res

    def contradictory(self):
        return any(f == {1: 1} for f in self.facts)

    def inconsistent(self):
        """no values satisfy the facts (looks at all of them, or at those connected to the latest ones)"""
        if 'inc' in self.memo:
            return self.memo['inc']
        if self.contradictory():
            return True
        if len(self.facts) <= 40:
            fs = range(len(self.facts))
            seen = set(x for f in self.facts for x in f if x != 1)
        else:
            fs, seen = self.relevant([x for f in self.facts[-6:] for x in f if x != 1], 3)
        cons = [self.facts[i] for i in fs]
        for x in seen:
            lo, hi = self.ranges.get(x, (None, None))
            if lo is not None:
                cons.append({x: -1, 1: lo} if lo else {x: -1})
            if hi is not None:
                cons.append({x: 1, 1: -hi} if hi else {x: 1})
        r = self.memo['inc'] = infeasible(cons)
        return r
