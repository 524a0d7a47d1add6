"""What Save writes, Load and Mmap read back - position by position, member by member."""
import re
import common, flow, persist
from sym import *
from persist import Image, Replay, Unclear
import V01
from V01 import Obj, nulls

import os
KINDS = os.environ.get('KINDS','').split() or common.SCANNERS
MAPPABLE = [k for k in KINDS if not k.startswith('Nonreloc')]
# what is written in the image by a scanner kind is documented to be readable by these other kinds
SRC, DST, IMG, LEN = A('arg', 0), A('arg', 9), A('img', 0), A('arg', 8)
for x in (SRC, DST, IMG): flow.PTR.add(x.single())

def module():
    return common.norm('e_(%s)_(save|load|mmap|copy)' % '|'.join(KINDS), V01.FSMRULES)

class Kind:
    def __init__(self, c, m, k, K):
        self.k = k; self.m = m
        f = m.fns.get('e_%s_save' % k); g = m.fns.get('e_%s_load' % k); h = m.fns.get('e_%s_mmap' % k)
        c.need(f is not None and g is not None, 'save/load of %s not found' % k)
        self.o = Obj(m, f.d['ditypes'][1][0].replace('const ', '').rstrip('*& '))
        nl = nulls(m)
        self.sf = flow.Flow(m, f, static_fns=nl); self.sp = [p for p in self.sf.run(args={0: SRC}) if p.end == 'ret']
        self.lf = flow.Flow(m, g, static_fns=nl); self.lp = self.lf.run(args={0: DST})
        self.mf = None; self.mp = []
        if h is not None:
            self.mf = flow.Flow(m, h, static_fns=nl); self.mp = self.mf.run(args={0: DST, 1: IMG, 2: LEN})
        self.inv = invariants(self.o)
        self.fixed = {x[2]: K[(k, x[2])] for x in self.o.leaves if (k, x[2]) in K}
        for x in self.o.leaves:
            if x[2] in self.fixed: self.inv.setdefault('sub', {}).update({A('ld', 0, b + x[0], x[1]).single(): lin(self.fixed[x[2]]) for b in (SRC, DST)})
        # an empty scanner aliases a default constructed one
        for g in nl:
            nk = ('Nonreloc' if 'Nonrelocatable' in g else '') + 'Scanner' + ('NoMask' if 'NoShortcut' in g else '')
            for x in self.o.leaves:
                if (nk, x[2]) in K: self.inv.setdefault('sub', {})[A('ld', 0, A('retp', g) + x[0], x[1]).single()] = lin(K[(nk, x[2])])
        self.layout = layout(self, nl)
        self.imgs = []
    def images(self, c):
        for p in self.sp:
            im = Image(self.sf, p.st, SRC, self.inv); im.loc = where(self, 'Save'); self.imgs.append(im) if im.possible else None
        return self.imgs

def where(kd, op): return '%s of %s' % (op, kd.k)

def invariants(o):
    """members of the in-memory representation with one row per (state, letter)"""
    inv = {}
    vecs = [l for l in o.leaves if l[3] == 'container' and l[4].count('vector') + l[4].count('TVector') >= 2]
    if vecs:
        first = None
        for l in vecs:
            b = A('ld', 0, SRC + l[0], 8); flow.PTR.add(b.single())
            e = A('ld', 0, SRC + l[0] + 8, 8)
            if first is None: first = b
            inv[('total', b)] = first
            es = next((s for t, s in persist.ESIZE.items() if re.search(r'<%s\W' % t, l[4])), 4)
            inv[('esize', b)] = es
            sc = [x for x in o.leaves if x[3] == 'scalar' and x[1] == 8][:2]
            n = A('ld', 0, SRC + sc[0][0], 8) * A('ld', 0, SRC + sc[1][0], 8)
            inv.setdefault('sub', {})[e.single()] = b + n.scale(24)
        # whether transitions carry actions is configuration, equal on both sides
        for l in o.leaves:
            if l[3] == 'scalar' and l[1] == 1: inv.setdefault('anyver', {})[(DST + l[0], 1)] = A('ld', 0, SRC + l[0], 1)
        for l in o.leaves:
            if l[3] == 'ptr' and re.match(r'(const )?unsigned long\W', l[4]):
                inv['sub'][A('ld', 0, A('ld', 0, SRC + l[0], 8), 8).single()] = ZERO
    for l in o.leaves:
        # a table of actions starts with its own size
        if l[3] == 'ptr' and re.match(r'const unsigned int\b', l[4]): inv.setdefault('nz', set()).add(A('ld', 0, A('ld', 0, SRC + l[0], 8), 4))
    return inv

def run(c):
    m = module(); npairs = 0; pairs = {}
    K = V01.consts(c)
    kinds = {k: Kind(c, m, k, K) for k in KINDS}
    for k in KINDS:
        kd = kinds[k]
        try: imgs = kd.images(c)
        except Unclear as e: c.bad('save-layout', where(kd, 'Save'), str(e)); continue
        for op, fl, paths in (('Load', kd.lf, kd.lp), ('Mmap', kd.mf, kd.mp)):
            if fl is None: continue
            for n, im in enumerate(imgs):
                done = 0; reasons = []
                for p in paths:
                    if p.end == 'backedge': continue
                    r = Replay(im, fl, p.st, IMG if op == 'Mmap' else None, LEN if op == 'Mmap' else None, im.total + A('extra', 0))
                    if p.end == 'throw' and streamfailed(p): continue
                    why = r.infeasible()
                    if why: reasons.append(why); continue
                    if r.err: c.bad('read-layout', where(kd, op), str(r.err)); continue
                    if p.end == 'throw':
                        c.bad('accepted', where(kd, op), 'may reject what Save wrote (%s)' % rejected(p)); continue
                    done += 1; npairs += 1
                    judge(c, kd, im, r, fl, p, op, K, pairs)
                c.decide('accepted', done > 0, where(kd, op), 'an image Save writes is never accepted (%s)' % '; '.join(reasons[:2]))
    c.cov.update(scanner_kinds=len(KINDS), pairs=npairs)

def rejected(p):
    b = [e for e in p.st.ev if e.k == 'branch']
    return '%s at %s' % (show_cond(b[-1].a[0])[:200], b[-1].loc.split('/')[-1]) if b else ''

def streamfailed(p):
    return any(k[0] == 'eq' and any(atom_of(a)[0] == 'streamok' for a in k[1].atoms()) and failed(k, v) for k, v in p.st.facts.items()) or any(atom_of(a)[0] == 'streamok' and v == ZERO for a, v in p.st.sub.items())
def failed(k, v): return v if k[1].c == 0 else not v

def judge(c, kd, im, r, fl, p, op, K, pairs):
    o = kd.o; st = p.st; w = where(kd, op)
    end = r.end if op == 'Load' else r.S(p.val) - IMG
    c.decide('consumed', im.n(end - im.total) == ZERO, w, '%s bytes are consumed, %s were saved' % (str(end)[:80], str(im.total)[:80]))
    emptyp = aliased_null(kd, im)
    for x in o.leaves:
        if x[3] == 'vptr' or x[2] in o.const: continue
        v = r.S(fl.load(st, DST + x[0], x[1])); s = im.n(A('ld', 0, SRC + x[0], x[1]))
        msg = leaf(kd, im, r, fl, p, op, x, v, s, K, emptyp)
        c.decide('member', msg is None, w, 'member %s %s' % (x[2], msg or 'is restored'))
    if kd.k.startswith('Nonreloc'): return     # the image holds the converted scanner
    contents(c, kd, im, r, fl, p, op, pairs, emptyp)

def aliased_null(kd, im):
    rs = set()
    for a, v in im.st.sub.items():
        for l in (Aid(a), v):
            for y in l.atoms():
                t = atom_of(y)
                if t[0] == 'ld': rs |= {b for b in t[2].atoms() if atom_of(b)[0] == 'retp'}
    for x in kd.o.leaves:
        for b in rs:
            if x[3] == 'ptr' and im.n(A('ld', 0, SRC + x[0], x[1])) == im.n(A('ld', 0, Aid(b) + x[0], x[1])): return True
    return False

def leaf(kd, im, r, fl, p, op, x, v, s, K, emptyp):
    off, size, name, kind, ty = x; o = kd.o
    if emptyp and V01.fromnull(v, off): return None
    if kind == 'scalar':
        if v == s or size == 1 and trunc(v, 8) == im.n(trunc(s, 1)): return None
        if size == 1 and v.const == 1 and r.truth(cond_cmp('eq', im.n(trunc(s, 1)), ZERO)) is False: return None
        kc = K.get((kd.k, name))
        if kc is not None and v.const == kc: return None
        if v == im.n(A('ld', 0, DST + off, size)): return None if name == 'need_actions' or (kd.k, name) in K else 'keeps the value the target had before'
        for q in o.leaves:
            if q[3] != 'ptr': continue
            pv = r.S(fl.load(p.st, DST + q[0], q[1])); ps = im.n(A('ld', 0, SRC + q[0], q[1]))
            if v - pv == s - ps and pv != ps: return None
            if pv != ps and V01.row_scaled(v - pv, s - ps): return None
        return 'becomes %s, the saved scanner has %s' % (str(v)[:100], str(s)[:60])
    if kind == 'owner':
        return None if v == ZERO or atom_of(v.single() or 0)[0] == 'new' else 'ends up owning %s' % str(v)[:80]
    return None

def data_tokens(kd, im):
    """tokens saved from storage the scanner's members point to"""
    ptrs = {im.n(A('ld', 0, SRC + x[0], x[1])): x for x in kd.o.leaves if x[3] == 'ptr'}
    return [t for t in im.toks if t.kind == 'rows' or t.kind == 'mem' and t.addr in ptrs]

def contents(c, kd, im, r, fl, p, op, pairs, emptyp):
    """the storage the members point to holds what was saved from the corresponding storage"""
    o = kd.o; st = p.st; w = where(kd, op); used = set(); owned = set()
    conts = {im.n(A('ld', 0, SRC + x[0], 8)): x for x in o.leaves if x[3] == 'container'}
    ptrs = {im.n(A('ld', 0, SRC + x[0], 8)): x for x in o.leaves if x[3] == 'ptr'}
    def pair(a, b, what):
        if pairs.setdefault((kd.k, 'f', a), b) != b or pairs.setdefault((kd.k, 'b', b), a) != a:
            c.bad('contents', w, 'member %s holds %s in one representation, %s in another' % (a, what, pairs.get((kd.k, 'f', a))))
        else: c.ok('contents')
    raw = any(x[3] == 'rawpool' for x in o.leaves)
    for x in o.leaves:
        if x[3] == 'owner': owned.add(fl.norm(st, fl.load(st, DST + x[0], 8)))
    for x in o.leaves:
        off, size, name, kind, ty = x
        v = fl.norm(st, fl.load(st, DST + off, size if kind == 'ptr' else 8))
        if kind == 'container':
            if v == ZERO: continue
            g = r.rows.get(v)
            if g is None:
                c.bad('contents', w, 'member %s ends up as %s, which was not filled from the stream' % (name, str(v)[:60])); continue
            f = im.find(g[0], 4); t, d = f if f else (None, None)
            if t is None or d != ZERO: c.bad('contents', w, 'member %s is filled from the middle of a saved item' % name); continue
            used.add(t)
            if t.kind == 'rows':
                y = conts.get(t.key)
                c.decide('contents', y is not None and y[2] == name, w, 'member %s is filled with what was saved from %s' % (name, y[2] if y else t.key))
            elif t.addr in ptrs: pair(name, ptrs[t.addr][2], 'the rows of')
            else: c.bad('contents', w, 'member %s is filled from %s' % (name, str(t.addr)[:60]))
        elif kind == 'ptr':
            S = r.S(v); s = im.n(A('ld', 0, SRC + off, 8))
            if emptyp and (V01.fromnull(S, off) or S == s): continue
            if fl.root(v) == IMG.single():
                f = im.find(S - IMG, 1)
                if f is None: c.bad('contents', w, 'member %s points behind the saved data' % name); continue
                t, d = f; i = im.toks.index(t)
                if t.kind == 'rows':
                    used.add(t)
                    c.decide('contents', d == ZERO and t.key in conts, w, 'member %s points into the middle of the saved rows' % name)
                    if t.key in conts: pair(conts[t.key][2], name, 'the rows of')
                    continue
                if i + 1 < len(im.toks) and im.toks[i + 1].kind == 'psum' and d == ZERO: pair('#' + conts[im.toks[i + 1].key][2] if im.toks[i + 1].key in conts else '?', name, 'the row boundaries of'); continue
                if t.kind == 'psum': c.bad('contents', w, 'member %s points into the middle of the row boundaries' % name); continue
                used.add(t)
            elif fl.root(v) is not None and atom_of(fl.root(v))[0] == 'new':
                f = True
                for (pos, n, dst, tag, e) in r.reads:
                    if fl.root(dst) == fl.root(v):
                        g = im.find(pos, 1)
                        if g: used.add(g[0])
                c.decide('contents', raw or Aid(fl.root(v)) in owned, w, 'member %s points to storage allocated here that no member owns' % name)
            elif (v - DST).const is not None:
                y = [q for q in o.leaves if q[0] == (v - DST).c and q[3] == 'container']
                c.decide('contents', bool(y) and (fl.norm(st, fl.load(st, v, 8)) in r.rows or emptyp), w, 'member %s points to member %s, which was not filled' % (name, y[0][2] if y else '?')); continue
            elif v == ZERO and s == ZERO: continue
            elif v == ZERO or V01.fromnull(S, off):
                # unused in this representation: the data must be in another member (below)
                c.decide('contents', bool(conts) or r.truth(cond_cmp('eq', s, ZERO)) is True or implied(kd, im, r, name), w, 'member %s becomes null although what it pointed to may not be empty' % name); continue
            elif v == fl.norm(st, A('ld', 0, DST + off, 8)): c.bad('contents', w, 'member %s keeps the pointer the target had before' % name); continue
            else: c.bad('contents', w, 'member %s becomes %s' % (name, str(S)[:80])); continue
            got = flow.subst(r.S(fl.load(st, v, 1)), kd.layout); want = flow.subst(A('ld', 0, s, 1), kd.layout)
            c.decide('contents', got == want, w, 'member %s points to a copy of %s, not of what it pointed to when saved' % (name, str(got)[:80]))
    for k, pos in r.pos.items():
        if isinstance(k, tuple) and k[0] == 'psum':
            f = im.find(pos, 8)
            ns = [x[2] for x in o.leaves if x[3] == 'container' and fl.norm(st, fl.load(st, DST + x[0], 8)) in r.totals]
            if f and f[0].addr in ptrs and ns: used.add(f[0]); pair('#' + ns[0], ptrs[f[0].addr][2], 'the row boundaries of')
    if not emptyp:
        for t in data_tokens(kd, im):
            c.decide('contents', t in used, w, 'the data saved from %s is not reachable from any member' % str(t.addr)[:60])

def implied(kd, im, r, name):
    """a flag is set on this path, and whoever sets the flag leaves the pointer null"""
    for b in kd.o.leaves:
        if b[3] != 'scalar' or b[1] != 1: continue
        if r.truth(cond_cmp('eq', im.n(trunc(A('ld', 0, SRC + b[0], 1), 1)), ZERO)) is not False: continue
        x = next(q for q in kd.o.leaves if q[2] == name); seen = 0; ok = True
        for fl, paths in ((kd.lf, kd.lp), (kd.mf, kd.mp)):
            for p in paths:
                if p.end == 'ret' and fl.load(p.st, DST + b[0], 1) == ONE:
                    seen += 1; ok &= fl.load(p.st, DST + x[0], 8) == ZERO
        if seen and ok: return True
    return False

def layout(kd, nl):
    """addresses of the members inside the one buffer of an in-memory scanner, as a copy lays them out"""
    m = kd.m; f = m.fns.get('e_%s_copy' % kd.k); out = {}
    if f is None: return out
    fl = flow.Flow(m, f, static_fns=nl)
    for p in fl.run(args={0: DST, 1: SRC}):
        if p.end != 'ret': continue
        vs = [(x, fl.load(p.st, DST + x[0], 8)) for x in kd.o.leaves if x[3] == 'ptr']
        by = {}
        for x, v in vs:
            r = fl.root(v)
            if r is not None and atom_of(r)[0] == 'new': by.setdefault(r, []).append((x, v))
        for r, g in by.items():
            x0, v0 = g[0]
            for x, v in g[1:]:
                d = fl.norm(p.st, v - v0)
                if not any(atom_of(a)[0] in ('new',) for a in d.atoms()): out[A('ld', 0, SRC + x[0], 8).single()] = A('ld', 0, SRC + x0[0], 8) + d
    return out
