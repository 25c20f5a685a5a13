"""Builds the analysed program: compiles every library source of /repo's working
tree to LLVM bitcode, and exports it in normal form with tools/irx."""
import hashlib, json, os, subprocess, sys, tempfile, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'pe_lib')
BUILD = os.path.join(VERIF, 'build')
CXXFLAGS = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names',
            '-fno-inline-functions', '-w', '-fstrict-aliasing']


class Broken(Exception):
    """The analysis itself cannot run or lost its anchors: neither pass nor violation."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)


def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def sources():
    if not os.path.isdir(SRC):
        raise Broken('no library sources at %s' % SRC)
    cpp = sorted(os.path.join(SRC, f) for f in os.listdir(SRC) if f.endswith('.cpp'))
    hdr = sorted(os.path.join(SRC, f) for f in os.listdir(SRC) if f.endswith('.h'))
    return cpp, hdr


def irx():
    src = os.path.join(VERIF, 'tools', 'irx', 'irx.cpp')
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'irx-' + _hash([src]))
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = out + '.tmp%d' % os.getpid()
        r = sh(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS',
                '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-o', tmp])
        if r.returncode:
            raise Broken('irx does not build:\n' + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def bitcode(workdir):
    cpp, _ = sources()

    def one(p):
        o = os.path.join(workdir, os.path.basename(p)[:-4] + '.bc')
        r = sh(['clang++'] + CXXFLAGS + ['-I' + SRC, '-emit-llvm', '-c', p, '-o', o])
        return p, o, r
    outs = []
    with ThreadPoolExecutor(8) as ex:
        for p, o, r in ex.map(one, cpp):
            if r.returncode:
                raise Broken('cannot compile %s:\n%s' % (p, r.stderr[-3000:]))
            outs.append(o)
    return outs


def export(mode):
    """mode: 'mod' (known functions stay calls; only helpers unknown to the pinned tree and
    trivial accessors are inlined) or 'flat' (everything inlined except recursion)."""
    cpp, hdr = sources()
    keepfile = os.path.join(VERIF, 'spec', 'keep_%s.txt' % mode)
    if not os.path.exists(keepfile):
        raise Broken('no ' + keepfile)
    tool = irx()
    key = _hash(cpp + hdr + [keepfile, tool], mode + ' '.join(CXXFLAGS))
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, '%s-%s.json' % (mode, key))
    if not os.path.exists(out):
        td = tempfile.mkdtemp(prefix='pvbc')
        try:
            bcs = bitcode(td)
            tmp = out + '.tmp%d' % os.getpid()
            r = sh([tool, tmp, keepfile] + bcs)
            if r.returncode:
                raise Broken('irx failed: ' + r.stderr[-3000:])
            os.rename(tmp, out)
        finally:
            shutil.rmtree(td, ignore_errors=True)
        # bound the cache
        fs = sorted((os.path.join(cache, f) for f in os.listdir(cache) if f.endswith('.json')), key=os.path.getmtime)
        for f in fs[:-24]:
            try:
                os.remove(f)
            except OSError:
                pass
    with open(out) as f:
        return json.load(f)
