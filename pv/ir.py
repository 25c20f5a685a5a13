"""In-memory model of the exported program: functions, control flow, dominance, loops, call graph."""
import re, sys
from . import build

sys.setrecursionlimit(20000)


def strip_tpl(s):
    """Drops template argument lists from a demangled name."""
    out = []
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith('operator<<', i) or s.startswith('operator>>', i):
            out.append(s[i:i + 10]); i += 10; continue
        if s.startswith('operator<=', i) or s.startswith('operator>=', i) or s.startswith('operator->', i):
            out.append(s[i:i + 10]); i += 10; continue
        if s.startswith('operator<', i) or s.startswith('operator>', i):
            out.append(s[i:i + 9]); i += 9; continue
        if c == '<':
            depth += 1
        elif c == '>' and depth:
            depth -= 1
        elif not depth:
            out.append(c)
        i += 1
    return ''.join(out)


def split_sig(d):
    """demangled name -> (qualified name without templates, [params], is_const)"""
    s = d.replace('[abi:cxx11]', '').replace('std::__cxx11::', 'std::')
    # find the parameter list: last balanced (...) group
    const = False
    t = s
    if t.endswith(' const'):
        const = True
        t = t[:-6]
    if not t.endswith(')'):
        return strip_tpl(s).split(' ')[-1], [], const
    depth = 0
    for i in range(len(t) - 1, -1, -1):
        if t[i] == ')':
            depth += 1
        elif t[i] == '(':
            depth -= 1
            if not depth:
                break
    params = t[i + 1:-1]
    head = strip_tpl(t[:i])
    # drop a leading return type (template functions)
    m = re.match(r'^(.*\s)?((?:[\w~]+::)*(?:operator.*|~?\w+|\{lambda.*))$', head)
    name = m.group(2) if m else head
    ps = []
    cur = ''
    dep = 0
    for c in params:
        if c in '<(':
            dep += 1
        elif c in '>)':
            dep -= 1
        if c == ',' and not dep:
            ps.append(cur.strip()); cur = ''
        else:
            cur += c
    if cur.strip():
        ps.append(cur.strip())
    return name, ps, const


class Ins(object):
    __slots__ = ('id', 'op', 'raw', 'bb', 'idx', 'fn')

    def __init__(self, raw, bb, idx, fn):
        self.raw = raw
        self.id = raw.get('i')
        self.op = raw['o']
        self.bb = bb
        self.idx = idx
        self.fn = fn

    def get(self, k, dflt=None):
        return self.raw.get(k, dflt)

    @property
    def loc(self):
        return '%s:%s' % (self.fn.prog.file(self.raw.get('f')), self.raw.get('l', '?'))

    @property
    def callee(self):
        c = self.raw.get('c')
        if c:
            return c
        cp = self.raw.get('cp')
        if isinstance(cp, list) and cp[0] == 'f':
            return cp[1]
        return None

    def is_call(self):
        return self.op in ('call', 'invoke')

    def succs(self):
        if self.op == 'br':
            return self.raw['s']
        if self.op == 'switch':
            r = []
            for _, b in self.raw['cs']:
                if b not in r:
                    r.append(b)
            if self.raw['df'] not in r:
                r.append(self.raw['df'])
            return r
        if self.op == 'invoke':
            return [self.raw['nd'], self.raw['ud']]
        return []


class Fn(object):
    def __init__(self, prog, mangled, raw):
        self.prog = prog
        self.mangled = mangled
        self.raw = raw
        self.dem = raw['d']
        self.name, self.params, self.const = split_sig(self.dem)
        self.std = raw['std']
        self.has_body = 'b' in raw
        self.blocks = []
        self.defs = {}
        if self.has_body:
            self.args = raw['args']
            for bi, b in enumerate(raw['b']):
                blk = [Ins(r, bi, k, self) for k, r in enumerate(b)]
                self.blocks.append(blk)
                for i in blk:
                    if i.id is not None:
                        self.defs[i.id] = i
            self.argidx = dict((a['id'], k) for k, a in enumerate(self.args))
        self._cfg = None

    @property
    def file(self):
        return self.prog.file(self.raw.get('file'))

    @property
    def line(self):
        return self.raw.get('line', 0)

    @property
    def where(self):
        return '%s:%s (%s)' % (self.file, self.line, self.short)

    @property
    def short(self):
        n = self.name
        if n.startswith('pe_bliss::'):
            n = n[len('pe_bliss::'):]
        t = ''
        if 'image_nt_headers32' in self.dem:
            t = '<32>'
        elif 'image_nt_headers64' in self.dem:
            t = '<64>'
        return n + t

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self):
        for i in self.instrs():
            if i.is_call():
                yield i

    # ---- CFG
    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg


class CFG(object):
    def __init__(self, fn):
        n = len(fn.blocks)
        self.n = n
        self.succ = [list(b[-1].succs()) if b else [] for b in fn.blocks]
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succ[b]:
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        # RPO
        seen = [False] * n
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.reach = seen
        self.rpoidx = dict((b, i) for i, b in enumerate(self.rpo))
        self.idom = self._idom(self.rpo, self.pred, 0)
        # loops
        self.backedges = []
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    self.backedges.append((b, s))
        self.loops = {}
        for b, h in self.backedges:
            body = self.loops.setdefault(h, set([h]))
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(p for p in self.pred[x] if seen[p])
        self._pidom = None

    def _idom(self, rpo, pred, root):
        idx = dict((b, i) for i, b in enumerate(rpo))
        idom = {root: root}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == root:
                    continue
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def dominates(self, a, b):
        if b not in self.idom:
            return False
        while True:
            if a == b:
                return True
            p = self.idom[b]
            if p == b:
                return False
            b = p

    def loop_of(self, b):
        """innermost loop header containing b"""
        best = None
        for h, body in self.loops.items():
            if b in body and (best is None or len(body) < len(self.loops[best])):
                best = h
        return best

    def reachable_from(self, b, avoid=()):
        seen = set()
        st = [b]
        while st:
            x = st.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            st.extend(self.succ[x])
        return seen


class Prog(object):
    def __init__(self, data):
        self.data = data
        self.files = data['files']
        self.fns = {}
        for k, raw in data['fn'].items():
            self.fns[k] = Fn(self, k, raw)
        self.types = data['ty']
        self.globals = data['gl']
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.name, []).append(f)
        self._vt = None

    def file(self, i):
        if i is None:
            return '?'
        p = self.files[i]
        j = p.rfind('/src/pe_lib/')
        if j >= 0:
            return 'src/pe_lib/' + p[j + 12:]
        return p

    def named(self, name, body=True):
        if not name.startswith('pe_bliss'):
            name = 'pe_bliss::' + name
        return [f for f in self.byname.get(name, []) if f.has_body or not body]

    def repo_fns(self):
        return [f for f in self.fns.values() if f.has_body and not f.std]

    def vtables(self):
        if self._vt is None:
            self._vt = {}
            for g, o in self.globals.items():
                if 'vt' in o:
                    self._vt[g] = o['vt']
        return self._vt

    def virtual_targets(self, slot, cls_prefix):
        """functions at vtable slot (0-based after offset-to-top and rtti) of classes matching prefix"""
        res = []
        for g, vt in self.vtables().items():
            if cls_prefix in g and len(vt) > slot + 2:
                e = vt[slot + 2]
                if isinstance(e, list) and e[0] == 'f' and e[1] in self.fns:
                    res.append(self.fns[e[1]])
        return res


_cache = {}


def load(mode='mod'):
    if mode not in _cache:
        _cache[mode] = Prog(build.export(mode))
    return _cache[mode]
