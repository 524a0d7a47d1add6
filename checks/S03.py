"""Load and Mmap accept only data whose header and fixed part identify it as theirs."""
import common, flow, persist, V01, S01
from sym import *
from persist import Image, Replay, Unclear
DST, IMG, LEN, SRC = S01.DST, S01.IMG, S01.LEN, S01.SRC

FIELDS = [('magic number', 0, {0x45524950}), ('version', 4, {6, 7}), ('pointer size', 8, {8}), ('machine word size', 12, {16})]
# which saved kinds each kind reads, beyond its own: the counting and capturing scanners share one format,
# and half-final scanners are plain scanners with another interpretation of the result
def family(k):
    if k in ('Capturing', 'Counting', 'AdvCounting'): return 'loaded'
    if k == 'NoGlueLimit': return 'noglue'
    if k in ('Slow', 'SlowCapturing'): return 'slow'
    if k == 'Simple': return 'simple'
    return 'multi/nomask' if k.endswith('NoMask') else 'multi/mask'
def accepts(k, img):
    a, b = family(k), family(img)
    return a == b or a == 'noglue' and b == 'loaded' or a == 'loaded' and b == 'noglue'

def decided(fl, st, x, vals):
    """the path established that x is one of vals"""
    x = fl.norm(st, x)
    if x.const is not None: return x.c in vals
    for (p, a, b), tv in st.facts.items(): pass
    for e in st.ev:
        if e.k == 'branch' and oneof(fl, st, e.a[0], e.a[1], x, vals): return True
    return False
def oneof(fl, st, c, t, x, vals):
    if c in (True, False): return False
    p, a, b, neg = c; t = t != neg
    if p == 'or' and t: return oneof(fl, st, a, True, x, vals) and oneof(fl, st, b, True, x, vals)
    if p == 'and' and not t: return oneof(fl, st, a, False, x, vals) and oneof(fl, st, b, False, x, vals)
    if p == 'and' and t: return oneof(fl, st, a, True, x, vals) or oneof(fl, st, b, True, x, vals)
    if p == 'or' and not t: return oneof(fl, st, a, False, x, vals) or oneof(fl, st, b, False, x, vals)
    if p == 'eq' and t:
        for d in (a, -a):
            r = fl.norm(st, d - x)
            if r.const is not None and (-r.c) % (1 << 64) in vals: return True
    return False

def module(): return common.norm('e_(%s)_(save|load|mmap|copy)' % '|'.join(common.SCANNERS), V01.FSMRULES)

def run(c):
    m = module(); nl = V01.nulls(m); K = V01.consts(c); n = 0
    for x in (IMG, DST): flow.PTR.add(x.single())
    kinds = {k: S01.Kind(c, m, k, K) for k in common.SCANNERS}
    images = {}
    for k, kd in kinds.items():
        try: images[k] = kd.images(c)
        except Unclear as e: c.bad('save-layout', S01.where(kd, 'Save'), str(e)); images[k] = []
    def hdr(k, off):
        out = set()
        for k2, ims in images.items():
            if accepts(k, k2): out |= {v.c for v in (im.value(lin(off), 4) for im in ims) if v is not None and v.const is not None}
        return out
    for k, kd in kinds.items():
        ops = [('Load', kd.lf, kd.lp)] + ([('Mmap', kd.mf, kd.mp)] if kd.mf else [])
        msize = None
        for op, fl, paths in ops:
            w = '%s of %s' % (op, k)
            for p in paths:
                if p.end != 'ret': continue
                n += 1; st = p.st
                tags = [e.a[3] for e in st.ev if e.k == 'read']
                def field(off, size=4):
                    return A('ld', 0, IMG + off, size) if op == 'Mmap' else A('in', tags[0], lin(off), size)
                c.need(op == 'Mmap' or tags, 'no header is read by %s' % w)
                for name, off, vals in FIELDS:
                    c.decide('header', decided(fl, st, field(off), vals), w, 'accepts data whatever its %s is' % name)
                c.decide('header', decided(fl, st, field(16), hdr(k, 16)), w, 'accepts data whatever its type tag is')
                c.decide('header', decided(fl, st, field(20), hdr(k, 20)), w, 'accepts data whatever the size of its fixed part is')
        if kd.mf:
            fl = flow.Flow(m, m.fns['e_%s_mmap' % k], static_fns=nl)
            w = 'Mmap of %s' % k; ps = fl.run(); ptr = fl.args[1]
            for p in ps:
                if p.end == 'ret': c.decide('alignment', fl.norm(p.st, mk_ad(8, ptr)) == fl.norm(p.st, ptr), w, 'accepts a misaligned address')
    # every kind against the images of every other kind
    pairs = 0
    for k, kd in kinds.items():
        for op, fl, paths in (('Load', kd.lf, kd.lp), ('Mmap', kd.mf, kd.mp)):
            if fl is None: continue
            for k2, ims in images.items():
                if accepts(k, k2): continue
                for im in ims:
                    hit = None
                    for p in paths:
                        if p.end != 'ret': continue
                        r = Replay(im, fl, p.st, IMG if op == 'Mmap' else None, LEN if op == 'Mmap' else None, im.total + A('extra', 0))
                        if r.infeasible() is None: hit = p; break
                    pairs += 1
                    c.decide('foreign-image', hit is None, '%s of %s' % (op, k), 'accepts an image saved by %s' % k2)
                    if hit: break
    c.need(n >= 40 and pairs >= 100, 'only %d accepting paths and %d foreign images' % (n, pairs))
    c.cov.update(accepting_paths=n, foreign_pairs=pairs)

