"""Truncated images and streams are rejected before anything beyond their end is used."""
import common, flow, persist, V01, S01
from sym import *
from persist import nonneg
DST, IMG, LEN = A('arg', 9), A('img', 0), A('arg', 8)

def module(): return common.norm('e_(%s)_(load|mmap)' % '|'.join(common.SCANNERS), V01.FSMRULES)

class Bounds:
    """what a path has established about the length so far: LEN >= each of these"""
    def __init__(self, fl, st): self.fl = fl; self.st = st; self.have = [ZERO]
    def covers(self, x):
        x = self.fl.norm(self.st, x)
        if x.const == 0: return True
        return any(nonneg(self.fl.norm(self.st, h) - x) for h in self.have)
    def learn(self, c, t):
        if c in (True, False): return
        p, a, b, neg = c
        if p in ('and', 'or'):
            if (p == 'and') == (t != neg):
                self.learn(a, t != neg); self.learn(b, t != neg)
            return
        t = t != neg
        # remaining < n is false  /  n < remaining is true  /  remaining == 0 is false
        if p == 'ult' and not t: rem, n = a, b
        elif p == 'ult' and t: rem, n = b, a + ONE
        elif p == 'eq' and not t:
            rem, n = a, ONE
            if dict(rem.t).get((LEN.single(),)) == (1 << 64) - 1: rem = -rem
        else: return
        if dict(rem.t).get((LEN.single(),)) != 1:
            return
        used = LEN - rem
        if self.covers(used): self.have.append(used + n)
        # (when what was used is not known to be within the length the subtraction may have wrapped around)

def mmap_path(c, k, fl, p):
    st = p.st; w = 'Mmap of %s' % k; B = Bounds(fl, st)
    for e in st.ev:
        if e.k == 'branch': B.learn(e.a[0], e.a[1]); continue
        if e.k in ('load', 'memcpy'):
            a, n = (e.a[0], lin(e.a[1])) if e.k == 'load' else (e.a[1], e.a[2])
            a = fl.norm(st, a)
            if fl.root(a) != IMG.single(): continue
            end = a - IMG + n
            c.decide('read-within', B.covers(end), w, 'reads bytes up to %s at %s without having checked that there are that many' % (str(fl.norm(st, end))[:80], e.loc))
        elif e.k == 'loop':
            for q in e.a[4]:
                for x in q.ev:
                    if x.k == 'load' and fl.root(fl.norm(q, x.a[0])) == IMG.single(): c.bad('read-within', w, 'image read in a loop at %s' % x.loc)
    if p.end != 'ret': return 0
    end = p.val - IMG
    c.decide('consumed-within', B.covers(end), w, 'returns a position %s bytes into the image without having checked that there are that many' % str(fl.norm(st, end))[:100])
    return 1

def checked(fl, st, evs, i, tag, facts=None):
    """the read's success is established before anything else happens to the stream, the target or the heap"""
    for e in evs[i + 1:]:
        if e.k == 'branch' and about(e.a[0], tag): return e if implies_ok(e.a[0], e.a[1], tag) else None
        if e.k in ('read', 'alloc', 'loop', 'ret', 'write'): return False
        if e.k == 'call' and 'resize' in str(e.a[0]): return False
    return None

def about(c, tag):
    if c in (True, False): return False
    if c[0] in ('and', 'or'): return about(c[1], tag) or about(c[2], tag)
    return any(atom_of(y)[0] == 'streamok' and atom_of(y)[1] == tag for y in deep(c[1]))
def deep(l):
    for a in l.atoms():
        yield a
        for x in atom_of(a)[1:]:
            if isinstance(x, Lin): yield from deep(x)
def implies_ok(c, t, tag):
    p, a, b, neg = c
    if p != 'eq': return False
    return (t != neg) is False if a.c == 0 else (t != neg)

def load_path(c, k, fl, st, evs, end, w):
    n = 0
    for i, e in enumerate(evs):
        if e.k == 'loop':
            for q in e.a[4]: n += load_path(c, k, fl, q, q.ev, 'ret', w)
        if e.k != 'read': continue
        n += 1
        r = checked(fl, st, evs, i, e.a[3])
        if r is None and end != 'ret': continue
        c.decide('read-checked', bool(r), w, 'data read at %s is used without checking that the stream had it' % e.loc)
    return n

def run(c):
    m = module(); nl = V01.nulls(m); nm = nr = np = 0
    for x in (IMG, DST): flow.PTR.add(x.single())
    for k in common.SCANNERS:
        g, h = m.fns.get('e_%s_load' % k), m.fns.get('e_%s_mmap' % k)
        c.need(g is not None, 'Load of %s not found' % k)
        if h is not None:
            nm += 1
            fl = flow.Flow(m, h, static_fns=nl)
            for p in fl.run(args={0: DST, 1: IMG, 2: LEN}):
                if p.end in ('ret', 'throw'): np += mmap_path(c, k, fl, p)
        fl = flow.Flow(m, g, static_fns=nl)
        for p in fl.run(args={0: DST}):
            if p.end in ('ret', 'throw'): nr += load_path(c, k, fl, p.st, p.st.ev, p.end, 'Load of %s' % k)
    c.need(nm >= 10 and nr >= 60, 'only %d Mmap operations and %d stream reads found' % (nm, nr))
    c.cov.update(mmap_operations=nm, accepting_paths=np, stream_reads=nr)
