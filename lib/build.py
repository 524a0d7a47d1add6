"""Compiles /repo's current sources to LLVM IR and hands normalised modules to the analyses."""
import hashlib, os, subprocess, sys, glob, shutil, fcntl, time, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18/bin'

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-4000:]))
    return r.stdout

def sources():
    r = []
    for d in ('', 'extra/', 'scanners/', 'stub/', 'platform/'):
        for e in ('cpp', 'cc', 'cxx', 'c'): r += glob.glob('%s/pire/%s*.%s' % (REPO, d, e))
    return sorted(r)

def _digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()[:20]

def repo_files():
    r = []
    for root, ds, fs in os.walk(REPO + '/pire'):
        for f in fs:
            if re.search(r'\.(h|hpp|c|cc|cxx|cpp|y|l|lpp|ypp|inc|ipp|tcc)$', f): r.append(os.path.join(root, f))
    return r

def irtool():
    src = VERIF + '/tools/irtool.cpp'
    key = _digest([src]); out = '%s/irtool.%s' % (BUILD, key)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        cxx = [f for f in sh([LLVM + '/llvm-config', '--cxxflags']).split() if not f.startswith('-std')]
        ld = sh([LLVM + '/llvm-config', '--ldflags']).split()
        sh(['g++', '-O1', '-std=c++17', '-fno-rtti'] + cxx + ['-fno-exceptions', src, '-o', out + '.tmp'] + ld + ['-lLLVM-18'])
        os.rename(out + '.tmp', out)
    return out

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(BUILD + '/lock', 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

CXXFLAGS = ['-std=c++11', '-w', '-include', 'limits']

def incs(gen): return ['-I' + VERIF + '/units/cfg', '-I' + REPO, '-I' + REPO + '/pire', '-I' + gen]

def module():
    """directory holding the linked bitcode of every TU of the library plus the instantiation unit"""
    with Lock():
        units = sorted(glob.glob(VERIF + '/units/**/*.*', recursive=True))
        key = _digest(repo_files() + [u for u in units if u.endswith(('.cpp', '.h'))])
        d = '%s/m.%s' % (BUILD, key)
        if os.path.exists(d + '/all.linked'):
            os.utime(d); return d
        old = sorted(glob.glob(BUILD + '/m.*'), key=os.path.getmtime)
        for o in old[:-6]: shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/gen')
        ys = glob.glob(REPO + '/pire/*.y')
        for y in ys:
            b = os.path.basename(y)[:-2]
            sh(['bison', '-y', '-Wnone', '--defines=%s/gen/%s.h' % (d, b), '-o', '%s/gen/%s.cpp' % (d, b), y])
        srcs = sources() + sorted(glob.glob(d + '/gen/*.cpp')) + [VERIF + '/units/inst.cpp']
        def cc(s):
            o = '%s/%s.bc' % (d, hashlib.md5(s.encode()).hexdigest()[:8] + '_' + os.path.basename(s))
            sh(['clang++'] + CXXFLAGS + incs(d + '/gen') + ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c', s, '-o', o], cwd='/')
            return o
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, srcs))
        sh([LLVM + '/llvm-link'] + objs + ['-o', d + '/all.tmp'])
        for o in objs: os.unlink(o)
        os.rename(d + '/all.tmp', d + '/all.linked')
        return d

def raw():
    d = module(); out = d + '/raw.json'
    with Lock():
        t = irtool()
        if not os.path.exists(out):
            sh([t, 'raw', d + '/all.linked', out + '.tmp']); os.rename(out + '.tmp', out)
    return out

def norm(entries, extra_rules=()):
    """normalised module for the entry points matching `entries`; extra rules take precedence"""
    d = module()
    with open(VERIF + '/units/inline.rules') as f: rules = '\n'.join(list(extra_rules) + [f.read()])
    with Lock():
        t = irtool()
        key = hashlib.sha256((entries + '\0' + rules + t).encode()).hexdigest()[:12]
        out = '%s/norm.%s.json' % (d, key)
        if not os.path.exists(out):
            rf = '%s/rules.%s' % (d, key)
            with open(rf, 'w') as f: f.write(rules + '\n')
            sh([t, 'norm', d + '/all.linked', rf, entries, out + '.tmp']); os.rename(out + '.tmp', out)
    return out
