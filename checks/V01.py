"""Swap, copy, move and assignment carry over every part of a value."""
import re
import common, flow
from sym import *

FSMRULES = ['+^Pire::Fsm::(Swap|operator=|Fsm)$', '+^std::swap', '+^std::(make_unique|swap_ranges|iter_swap|__iter_swap)']
VALUES = common.SCANNERS + ['Fsm', 'BitSet', 'Any']

class Obj:
    def __init__(self, m, cls):
        self.m = m; self.cls = cls; self.c = m.classes[cls]; self.leaves = []
        for x in self.c['members']:
            t = x['t']; n = re.sub(r'\.?<base .*$', '', x['n'])
            if t == 'vptr': k = 'vptr'
            elif t.startswith(('std::unique_ptr', 'std::shared_ptr')): k = 'owner'
            elif t.startswith('std::') or '<base std::' in x['n']: k = 'rawpool' if re.search(r'vector<[^<>]*\*', t) else 'container'
            elif t.rstrip().endswith('*'): k = 'ptr'
            else: k = 'scalar'
            self.leaves.append((x['o'], x['s'], n, k, t))
        self.const = {n for o, s, n, k, t in self.leaves if t.startswith('const ') and k == 'scalar'}
    def own_tables(self, x):
        """pointer member that may refer to a member of the same object"""
        t = x[4].replace('const ', '').rstrip('* ')
        return [l for l in self.leaves if l[3] in ('container', 'rawpool') and (t in l[4] or l[4].replace('std::vector', 'Pire::TVector') in t + '>' or t.startswith(('Pire::TVector', 'std::vector')))]

def init(fl, st, a, x): return fl.norm(st, A('ld', 0, a + x[0], x[1]))

def consts(c):
    """scalar members every producer of a class sets to one and the same constant"""
    r = {}
    pairs = [('e_Scanner_fromNonreloc', 'Scanner'), ('e_ScannerNoMask_fromNonreloc', 'ScannerNoMask'), ('e_NonrelocScanner_fromReloc', 'NonrelocScanner'), ('e_NonrelocScannerNoMask_fromReloc', 'NonrelocScannerNoMask')]
    m = common.norm('e_(%s)' % '|'.join(p[0][2:] for p in pairs), FSMRULES)
    for n, k in pairs:
        f = m.fns.get(n)
        c.need(f is not None, 'conversion %s not found' % n)
        o = Obj(m, f.d['ditypes'][1][0].rstrip('*& '))
        fl = flow.Flow(m, f, static_fns=nulls(m)); 
        for p in fl.run():
            if p.end != 'ret' or not any(e.k == 'alloc' for e in p.st.ev): continue
            for x in o.leaves:
                if x[3] == 'scalar':
                    v = fl.load(p.st, fl.args[0] + x[0], x[1])
                    r.setdefault((k, x[2]), set()).add(v.const)
    out = {}
    for (k, n), v in r.items():
        if len(v) == 1 and None not in v:
            out[(k, n)] = out[(k.replace('Scanner', 'HalfFinal'), n)] = list(v)[0]
    return out

def nulls(m): return [g for g in m.fns if re.search(r'4NullEv$', g)]

def run(c):
    K = consts(c)
    rx = 'e_(%s)_(swap|copy|assign|move|massign)' % '|'.join(VALUES)
    m = common.norm(rx, FSMRULES)
    nent = 0
    for n in sorted(m.fns):
        if not re.match('^' + rx + '$', n): continue
        _, k, op = n.split('_')
        f = m.fns[n]; o = Obj(m, f.d['ditypes'][1][0].replace('const ', '').rstrip('*& '))
        nent += 1
        kc = {l[2]: K[(k, l[2])] for l in o.leaves if (k, l[2]) in K}
        if op == 'swap': swap(c, m, f, o, kc); continue
        transfer(c, m, f, o, kc, op, False)
        if op == 'assign': transfer(c, m, f, o, kc, op, True)
    c.need(nent >= 60, 'only %d value operations found' % nent)
    c.cov.update(entry_points=nent)
    c.explanation = ('Path-sensitive symbolic value-numbering of each swap / copy / move / assignment over the class layout taken from debug information: for every leaf member and every path the '
        'final value is compared with the source\'s initial value (exchanged, copied, re-based into fresh storage whose contents are copied from the corresponding source storage).')
    c.assumptions += ['standard containers implement their own copy, move and swap', 'storage obtained from different allocations or objects does not overlap']

def swap(c, m, f, o, kc):
    fl = flow.Flow(m, f, static_fns=nulls(m)); ps = fl.run(); a, b = fl.args[:2]
    where = f.name[2:]
    for p in ps:
        if p.end == 'throw': continue
        if p.end != 'ret':
            if p.end != 'backedge': c.bad('swap-complete', where, 'does not return normally')
            continue
        for x in o.leaves:
            if x[3] == 'vptr' or x[2] in kc or x[2] in o.const: continue
            for d, s, nm in ((a, b, 'left'), (b, a, 'right')):
                v = fl.load(p.st, d + x[0], x[1]); w = init(fl, p.st, s, x); keepv = init(fl, p.st, d, x)
                ok = v == w
                if not ok and x[3] == 'ptr':
                    own = o.own_tables(x)
                    ok = any(v == d + l[0] and facteq(fl, p.st, w, s + l[0]) for l in own) or (own and v == keepv and x[2].endswith('m_tbl'))
                c.decide('swap-complete', ok, loc(m, o, f), 'member %s of %s: %s operand does not end up with the other\'s value (%s)' % (x[2], common.short(o.cls), nm, str(v)[:80]))

def facteq(fl, st, x, y):
    return fl.norm(st, x - y) == ZERO

def loc(m, o, f):
    return '%s of %s' % (f.name.split('_')[-1], common.short(o.cls))

def transfer(c, m, f, o, kc, op, selfa):
    fl = flow.Flow(m, f, static_fns=nulls(m))
    if selfa:
        a0 = A('arg', 0); flow.PTR.add(a0.single())
        ps = fl.run(args={1: a0})
    else: ps = fl.run()
    a, s = fl.args[:2]; rule = 'self-assign' if selfa else op + '-complete'
    where = loc(m, o, f); nret = 0
    for p in ps:
        if p.end != 'ret': continue
        st = p.st; nret += 1
        for x in o.leaves:
            if x[3] == 'vptr' or x[2] in o.const: continue
            v = fl.load(st, a + x[0], x[1]); w = init(fl, st, s, x)
            msg = judge(fl, st, o, x, v, w, a, s, kc, op, selfa)
            c.decide(rule, msg is None, where, 'member %s: %s' % (x[2], msg or 'carried over'))
    c.need(nret, '%s never returns' % f.name)

def judge(fl, st, o, x, v, w, a, s, kc, op, selfa):
    off, size, name, kind, ty = x
    if kind == 'scalar':
        if v == w: return None
        if name in kc and (v.const == kc[name] or v == init(fl, st, a, x) or fromnull(v, off)): return None
        # re-based position: relative to some storage pointer of the object
        for q in o.leaves:
            if q[3] != 'ptr': continue
            pd = fl.load(st, a + q[0], q[1]); psrc = init(fl, st, s, q)
            d = v - pd; e = w - psrc
            if d == e and fl.root(pd) is not None and pd != psrc: return None
            if pd != psrc and row_scaled(d, e): return None
        return 'ends up as %s, source has %s' % (str(v)[:90], str(w)[:60])
    if kind == 'container':
        if v == flow.copy_of(w): return None
        if v == w:
            if selfa: return None
            if op in ('move', 'massign') and fl.load(st, s + off, size) != w: return None
            return 'shares the source\'s container'
        return 'ends up as %s instead of a copy of the source\'s' % str(v)[:80]
    if kind == 'rawpool':
        if v == ZERO: return None
        t = v.single()
        if t is not None and atom_of(t)[0] == 'cont': return None
        if v == w and (selfa or op in ('move', 'massign') and fl.load(st, s + off, size) != w): return None
        return 'the list of owned blocks is shared with the source'
    if kind == 'owner':
        if v == w and (selfa or w == ZERO): return None
        if v == w and fl.load(st, s + off, size) != w: return None
        if v == ZERO:
            if fl.decide(st, ('eq', w, 64, False)) is True or w == ZERO or not used(fl, st, o, a, s, x): return None
            return 'source owns storage the result refers to without owning it'
        r = fl.root(v)
        if r is not None and atom_of(r)[0] == 'new' and v == Aid(r): return None
        if any(e.k == 'call' and e.a[0] is None and e.a[1] and fl.root(e.a[1][0]) is not None or e.k == 'vcall' for e in st.ev): return None
        if any(e.k == 'call' and len(e.a) > 1 and any(isinstance(y, Lin) and y == w for y in e.a[1]) for e in st.ev): return None
        return 'ends up owning %s' % str(v)[:80]
    # pointers
    if v == w:
        if op in ('move', 'massign') or selfa: return None
        if o.own_tables(x) and not name.endswith('m_tbl') and any(facteq(fl, st, w, s + l[0]) for l in o.own_tables(x)): return 'refers to the source\'s own table'
        if name.endswith('m_tbl') or unowned(fl, st, o, s): return None
        return 'shares storage the source owns'
    for l in o.own_tables(x):
        if v == a + l[0]: return None
    if v == ZERO:
        if any(q[3] == 'ptr' and any(fl.load(st, a + q[0], q[1]) == a + l[0] for l in o.own_tables(q)) for q in o.leaves): return None
        return 'is dropped'
    r = fl.root(v)
    if r is not None and atom_of(r)[0] == 'new':
        return content(fl, st, o, x, v, w, a, s, r)
    return 'ends up as %s' % str(v)[:80]

def fromnull(v, off):
    t = v.single(); at = atom_of(t) if t is not None else None
    if not at or at[0] != 'ld': return False
    b = [atom_of(y)[0] for y in at[2].atoms()]
    return b == ['retp'] and at[2].c == off

def row_scaled(d, e):
    """d = Q*size where Q = e udiv size'"""
    for m_, k in d.t:
        for t in m_:
            at = atom_of(t)
            if at[0] == 'bin' and at[1] == 'udiv' and at[3] == e:
                q = Aid(t)
                if all(t in m2 for m2, _ in d.t) and d.c == 0: return True
    return False

def used(fl, st, o, a, s, x):
    """does the result still point to storage the source's owner member x holds?"""
    w = init(fl, st, s, x)
    for q in o.leaves:
        if q[3] == 'ptr':
            v = fl.load(st, a + q[0], q[1])
            if v == init(fl, st, s, q) and not unowned(fl, st, o, s): return True
    return False

def unowned(fl, st, o, s):
    """the path established that an owning member of the source is empty"""
    hold = [q for q in o.leaves if q[3] in ('owner', 'container', 'rawpool')]
    for e in st.ev:
        if e.k != 'branch' or not isinstance(e.a[0], tuple): continue
        for q in hold:
            if mentions(e.a[0], s + q[0], q[1]): return True
    return False

def mentions(x, lo, n):
    if isinstance(x, Lin): return any(mentions(atom_of(t), lo, n) for t in x.atoms())
    if isinstance(x, tuple):
        if x and x[0] == 'ld' and len(x) >= 4:
            d = (x[2] - lo).sconst
            if d is not None and 0 <= d < n: return True
        return any(mentions(y, lo, n) for y in x)
    return False

# ---- contents of fresh storage ------------------------------------------------------------------
def writes(fl, st, root):
    """region writes into the block: (start, length, source start or None, loop partial)"""
    def one(k, e, loops):
        if k == 'memcpy': d, s_, n = e.a; return (fl.norm(st, d), fl.norm(st, n), fl.norm(st, s_))
        d, n, v = e.a[:3]
        src = None
        if isinstance(v, Lin):
            for (uid, counts, q) in reversed(loops): v = affine(v, uid, counts)
            src = loaded_from(v)
        return (fl.norm(st, d), lin(n) if isinstance(n, int) else n, src)
    def walk(evs, loops, cur):
        out = []
        for e in evs:
            if e.k in ('memcpy', 'store'):
                d, n, s_ = one(e.k, e, loops)
                for (uid, counts, st_) in reversed(loops):
                    d, n, s_ = (fl.norm(st, affine(z, uid, counts)) if z is not None else None for z in (d, n, s_))
                if fl.root(d) != root: continue
                # widen over enclosing loops, innermost first
                part = None
                for (uid, counts, st_) in reversed(loops):
                    n1 = n; d, n, s_, pt = widen(fl, st_, d, n, s_, uid, counts)
                    if pt is not None: part = (pt, n1)
                out.append((d, n, s_, part))
            elif e.k == 'loop':
                H, uid, res, ini, ends = e.a[:5]
                cnt = {(k[1] if k[0] == 'v' else ('m',) + tuple(k[1])): v for k, v in res.items()} if isinstance(res, dict) else {}
                cnt['K'] = A('it', uid)
                per = [(q, walk(q.ev, loops + [(uid, cnt, cur)], q)) for q in ends]
                # what only some ways through the body write is not written by every iteration
                for w in dict.fromkeys(w for q, l in per for w in l):
                    if all(any(x[0] == w[0] and x[2] == w[2] for x in l) or none(q, w) for q, l in per): out.append(w)
        return out
    def none(q, w):
        """on the way q the region is empty: one of the numbers it is the product of is zero"""
        ats = {t for l in (w[1],) + (w[3] or ()) if l is not None for m_, k in l.t for t in m_}
        return any(p == 'eq' and tv is True and set(x.atoms()) & ats for (p, x, y), tv in q.facts.items() if isinstance(x, Lin))
    return walk(st.ev, [], st)

def loaded_from(v):
    """address the stored value was computed from: the load through a pointer rather than of a plain member"""
    c = []
    def add(l, d):
        for t in l.atoms():
            at = atom_of(t)
            if at[0] == 'ld': c.append(at[2])
            elif d < 6:
                for y in at[1:]:
                    if isinstance(y, Lin): add(y, d + 1)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, Lin): add(z, d + 1)
    add(v, 0)
    deep = [x for x in c if any(atom_of(t)[0] in ('ld', 'phi') for t in x.atoms())]
    return deep[0] if deep else c[0] if c else None

def phis(l, uid):
    r = []
    for m_, k in l.t:
        for t in m_:
            at = atom_of(t)
            if at[0] == 'phi' and at[1] == uid: r.append(t)
    return list(dict.fromkeys(r))

def deepphis(l, uid):
    out = {}
    def go(x, d):
        if isinstance(x, Lin):
            for t in x.atoms():
                at = atom_of(t)
                if at[0] == 'phi' and at[1] == uid: out[t] = 1
                elif d < 6: go(at[1:], d + 1)
        elif isinstance(x, tuple):
            for y in x: go(y, d + 1)
    go(l, 0); return list(out)
def affine(l, uid, res):
    """loop-carried values that advance by a constant, as functions of the iteration number"""
    sub = {}; k = A('phi', uid, 'K', 64)
    for t in deepphis(l, uid):
        v = res.get(atom_of(t)[2])
        if atom_of(t)[2] == 'K' or not isinstance(v, Lin): continue
        i = [x for x in v.atoms() if atom_of(x)[0] == 'it' and atom_of(x)[1] == uid]
        if i and not any(atom_of(x)[0] in ('w', 'ind', 'bin') for x in v.atoms()): sub[t] = flow.subst(v, {i[0]: k})
    return flow.subst(l, sub) if sub else l
def widen(fl, st, d, n, s_, uid, counts):
    ph = phis(d, uid)
    if not ph: return d, n, s_, None
    t = ph[0]; at = atom_of(t)
    it = counts.get(at[2])
    z = {t: ZERO}
    stride = lin(0)
    for m_, k in d.t:
        if t in m_:
            rest = Lin(k, ())
            skip = False
            for y in m_:
                if y == t and not skip: skip = True
                else: rest = rest * Aid(y)
            stride = stride + rest
    d0 = flow.subst(d, z); s0 = flow.subst(s_, z) if s_ is not None else None
    if it is None: return d0, n, s0, stride
    total = fl.norm(st, stride * bound(fl, st, it))
    return d0, total, s0, None if stride == n else stride

def bound(fl, st, it):
    """number of iterations: the value the induction variable is known to have on exit"""
    v = fl.norm(st, it)
    s = v.single()
    if s is not None and atom_of(s)[0] == 'it':
        for (p, x, y), tv in st.facts.items():
            # !(it < k) on exit together with a step of one means it == k
            if p in ('ult', 'slt') and tv is False and x == v: return y
    return v

def content(fl, st, o, x, v, w, a, s, root):
    """the fresh storage v points to is filled from the storage the source's member points to"""
    ptrs = [(fl.load(st, a + q[0], q[1]), init(fl, st, s, q), q) for q in o.leaves if q[3] in ('ptr', 'owner')]
    same = [(pd, ps_, q) for pd, ps_, q in ptrs if fl.root(pd) == root]
    ws = writes(fl, st, root)
    ends = [pd for pd, ps_, q in same] + [Aid(root) + e.a[1] for e in st.ev if e.k == 'alloc' and e.a[0] == Aid(root)]
    ends = [e_ for e_ in ends if slack(fl.norm(st, e_) - v) is not None or e_ != v]
    zs = zeros(st)
    if zs and any(pd != v and flow.subst(fl.norm(st, pd), zs) == flow.subst(v, zs) for pd, ps_, q in same): return None   # nothing to fill on this path
    direct = [W for W in ws if W[0] == v and W[2] is not None and W[2] == w]
    for d, n, sr, rows in direct:
        if any(slack(fl.norm(st, e_) - d - n) is not None for e_ in ends if e_ != v):
            if not rows: return None
            cur = lin(0); grew = True
            while grew:
                grew = False
                for d2, n2, s2, r2 in ws:
                    if r2 and r2[0] == rows[0] and d2 - v == cur and s2 is not None and fl.root(s2) == fl.root(w): cur = cur + r2[1]; grew = True
            if slack(rows[0] - cur) is not None: return None
            return 'of each row of %s bytes only the first %s are copied' % (str(rows[0])[:60], str(cur)[:40])
    if direct: return 'copying stops after %s bytes, before the end of the region' % str(direct[0][1])[:60]
    # one copy of the whole block, starting at another member's storage
    for d, n, sr, pt in ws:
        if sr is None: continue
        off = v - d
        for pd, ps_, q in same:
            if d == pd and sr == ps_ and flow.nonneg(off) or (d == Aid(root) and sr == ps_ and pd == Aid(root) and flow.nonneg(off)):
                al = [e.a[1] for e in st.ev if e.k == 'alloc' and e.a[0] == Aid(root)]
                if not al or fl.norm(st, n) == fl.norm(st, al[0]): return None
                return 'only %s of %s bytes of the block are copied' % (n, al[0])
    if zero_length(fl, st, root): return None
    return 'its fresh storage is not filled from the source\'s'

def zeros(st):
    """counts known to be zero: at most one and not one"""
    z = {}
    for (p, x, y), tv in st.facts.items():
        if p in ('slt', 'ult') and tv is False and x.const == 1 and isinstance(y, Lin) and y.single() is not None:
            if any(q == 'eq' and t is False and (d - y + ONE == ZERO or d + y - ONE == ZERO) for (q, d, w), t in st.facts.items()): z[y.single()] = ZERO
    return z
def zero_length(fl, st, root):
    """the path takes the copying helper's shortcut for an empty range"""
    al = [e.a[1] for e in st.ev if e.k == 'alloc' and e.a[0] == Aid(root)]
    if not al: return False
    for (p, x, y), tv in st.facts.items():
        if p == 'eq' and tv is True and not isinstance(y, Lin):
            for m_, k in al[0].t:
                if len(m_) >= 1 and any(t in x.atoms() for t in m_): return True
    return fl.norm(st, al[0]).const is not None

def slack(l):
    """small non-negative padding (alignment counted as padding), else None"""
    for _ in range(3):
        for m_, k in l.t:
            for t in m_:
                at = atom_of(t)
                if at[0] == 'ad' and isinstance(at[2], Lin): l = flow.subst(l, {t: at[2]}); break
            else: continue
            break
    k = l.sconst
    return k if k is not None and -8 < k < 64 else None
