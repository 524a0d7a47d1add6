"""What the saving operations put into a stream, and what loading / mapping takes out of it.

Every path of Save yields a list of tokens (offset, length, address saved from).  A path of Load or Mmap is then
replayed against it: each value it read is replaced by the value that was saved at that stream position.
"""
import re, itertools
import flow, sym
from sym import *

class Tok:
    __slots__ = ('off', 'len', 'addr', 'mi', 'kind', 'key', 'loc', 'tot')
    def __init__(self, off, ln, addr, mi, kind='mem', key=None, loc='?', tot=None):
        self.off = off; self.len = ln; self.addr = addr; self.mi = mi; self.kind = kind; self.key = key; self.loc = loc; self.tot = tot

class Unclear(Exception): pass

ESIZE = {'unsigned int': 4, 'int': 4, 'unsigned long': 8, 'unsigned char': 1, 'char': 1, 'unsigned short': 2, 'bool': 1}

def loop_subst(fl, e):
    H, uid, res = e.a[:3]; sub = {}
    ws = {i['i']: i.get('w', 64) for i in fl.f.blocks[H] if i['o'] == 'phi'}
    for k, v in res.items():
        if not isinstance(v, Lin): continue
        a = A('phi', uid, k[1], ws[k[1]]) if k[0] == 'v' else A('phi', uid, ('m',) + tuple(k[1]), min(64, 8 * k[1][1]))
        sub[a.single()] = (v, k)
    return sub

def end_value(fl, q, k):
    return fl.norm(q, q.env[k[1]]) if k[0] == 'v' else fl._load(q, k[1][0], k[1][1], len(q.mem))

def has_io(evs, kinds):
    return any(e.k in kinds or e.k == 'loop' and any(has_io(q.ev, kinds) for q in e.a[4]) for e in evs)

def row_of(l):
    """(row address, version) if l is the number of bytes between the begin and end pointers stored at a row object"""
    if l.c or len(l.t) != 2: return None
    x = {}
    for m, k in l.t:
        t = atom_of(m[0])
        if len(m) != 1 or t[0] != 'ld' or t[3] != 8: return None
        x[1 if k == 1 else -1 if k == (1 << 64) - 1 else 0] = t
    if set(x) != {1, -1} or x[1][1] != x[-1][1]: return None
    return x[-1][2] if (x[1][2] - x[-1][2]).sconst == 8 else None

def divided(l):
    """(expr, k) if l = expr / k exactly"""
    a = l.single()
    if a is None: return None
    t = atom_of(a)
    if t[0] == 'bin' and t[1] in ('ashr', 'lshr') and t[4].const is not None: return t[3], 1 << t[4].c
    if t[0] == 'bin' and t[1] in ('sdiv', 'udiv') and t[4].const is not None: return t[3], t[4].c
    return None

def plain(l, uid):
    """no loop-carried value among the top-level terms"""
    return not any(atom_of(a)[0] == 'phi' and atom_of(a)[1] == uid for m, k in l.t for a in m)

class Rows:
    """summary of one loop over the rows of a container doing one stream operation per row"""
    def __init__(self, kind, x0, stride, extent, ends):
        self.kind = kind; self.x0 = x0; self.stride = stride; self.extent = extent
        self.count = div(extent, stride); self.prev = None; self.resized = []; self.tags = []

def div(l, k):
    try:
        out = lin(0)
        r = div_exact(l, k)
        if r is not None: return r
    except Exception: pass
    return A('quo', l, k)

def split_it(l, uid):
    """l = base + stride*it<uid>"""
    it = A('it', uid).single(); stride = 0
    for m, k in l.t:
        if it in m:
            if len(m) != 1: return None
            stride = k - (1 << 64) if k >> 63 else k
    base = l - A('it', uid).scale(stride)
    return base, stride

def summarize(fl, st, e, kind):
    """Rows summary of a loop containing stream operations of the given kind ('write'/'read')"""
    H, uid, res, ini, ends = e.a[:5]
    sub = loop_subst(fl, e); s1 = {a: v for a, (v, k) in sub.items()}
    X = None; mode = None; out = None; cells = {}
    for q in ends:
        io = []
        for x in q.ev:
            if x.k == kind: io.append(x)
            elif x.k == 'loop' and has_io([x], (kind,)): raise Unclear('nested loop of stream operations at %s' % x.loc)
        if len(io) > 1: raise Unclear('several stream operations per iteration at %s' % io[1].loc)
        if io:
            w = io[0]; addr = fl.norm(q, w.a[1]); n = fl.norm(q, w.a[2])
            r = row_of(n)
            if r is not None and addr == first_of(n):
                m = 'rows'; X = r
            elif n.const == 8:
                m = 'psum'
                val = fl._load(q, addr, 8, w.a[3] if kind == 'write' else len(q.mem)) if kind == 'write' else A('in', w.a[3], ZERO, 8)
                if kind == 'read': val = fl._load(q, addr, 8, w.mi + 1)
                val = fl.norm(q, val)
                cand = [(Aid(a), k) for a, (v, k) in sub.items() if end_value(fl, q, k) == val]
                if not cand: raise Unclear('value at %s is not carried to the next row' % w.loc)
                prev = next((x for x in cand if plain(val - fl.norm(q, x[0]), e.a[1])), cand[0])
                cells['prev'] = prev; d = val - fl.norm(q, prev[0])
                if kind == 'write':
                    dv = divided(d)
                    r = row_of(dv[0]) if dv else None
                    if r is None: raise Unclear('row boundary written at %s is not the running number of elements' % w.loc + str(d))
                    X = r; cells['esize'] = dv[1]
                else:
                    rs = [c for c in q.ev if c.k == 'call' and re.search('6resizeEm', c.a[0] or '')]
                    for c in rs:
                        if fl.norm(q, c.a[1][1]) != d: raise Unclear('row resized to something else than the difference of the row boundaries at %s' % c.loc)
                        cells.setdefault('resized', {})[flow.subst(fl.norm(q, c.a[1][0]), s1)] = c
                    if not rs: raise Unclear('row boundary read at %s is not used' % w.loc)
                    X = fl.norm(q, rs[0].a[1][0])
                    cells['tag'] = w.a[3]
            else: raise Unclear('stream operation of %s bytes in a loop at %s' % (str(n)[:40], w.loc))
            if mode not in (None, m): raise Unclear('mixed stream operations in a loop')
            mode = m; out = w
    if out is None: raise Unclear('loop without stream operations')
    # ends doing nothing must have an empty row
    for q in ends:
        if not any(x.k == kind for x in q.ev):
            if mode != 'rows': raise Unclear('a row boundary is skipped at %s' % out.loc)
            if not any(p == 'eq' and tv is True and not isinstance(y, Lin) and row_of(x) is not None or p == 'eq' and tv is True and row_of(-x) is not None for (p, x, y), tv in q.facts.items()) and not any(row_eq(q, X)for _ in [0]):
                raise Unclear('a non-empty row may be skipped at %s' % out.loc)
    sp = split_it(flow.subst(X, s1), uid)
    if sp is None or sp[1] == 0: raise Unclear('rows are not visited in order at %s' % out.loc)
    x0, stride = sp
    ext = fl.norm(st, A('it', uid).scale(stride))
    if stride < 0: raise Unclear('rows visited backwards at %s' % out.loc)
    r = Rows(mode, fl.norm(st, x0), stride, ext, ends)
    r.loc = out.loc; r.cells = cells; r.uid = uid
    if 'prev' in cells:
        a, k = cells['prev']
        r.prevkey = k
    # accumulators of the bytes written
    r.acc = []
    for a, (v, k) in sub.items():
        if v.single() is None or atom_of(v.single())[0] != 'hv': continue
        ok = True
        for q in ends:
            d = end_value(fl, q, k) - fl.norm(q, Aid(a))
            io = [x for x in q.ev if x.k == kind]
            if io and d != fl.norm(q, io[0].a[2]): ok = False
            if not io and d != ZERO and row_of(d) is None: ok = False
        if ok: r.acc.append(v.single())
    return r

def row_eq(q, X):
    """the path's equalities make begin and end of the row equal"""
    for a, v in q.sub.items():
        t = atom_of(a); s = v.single(); u = atom_of(s) if s is not None else None
        if t[0] == 'ld' and u and u[0] == 'ld' and t[1] == u[1] and (t[2] - u[2]).sconst in (8, -8): return True
    return False

def first_of(n):
    for m, k in n.t:
        if k == (1 << 64) - 1: return Aid(m[0])
    return None

def nonneg(l, nz=()):
    """provably non-negative: sums and products of sizes, with align(x) >= x"""
    if flow.nonneg(l): return True
    for x in nz:
        for m, k in l.t:
            if Lin(0, ((m, 1),)) == x and not k >> 63 and nonneg(l - x.scale(k) + lin(k)): return True
    for m, k in l.t:
        if k >> 63 or len(m) != 1: continue
        t = atom_of(m[0])
        if isinstance(t[0], str) and t[0] == 'ad':
            # align(x) = x - x mod w >= x - (w - 1)
            d = l - Aid(m[0]).scale(k) + (t[2] - lin(t[1] - 1)).scale(k)
            if nonneg(d): return True
    return False

class Image:
    """stream produced by one path of Save"""
    def __init__(self, fl, st, src, invariants=None):
        self.fl = fl; self.st = st; self.src = src; self.toks = []; self.inv = invariants or {}
        self.hv = {}
        self.its = {}
        for d in [Aid(a) - v for a, v in st.sub.items()] + [x for (p, x, y), tv in st.facts.items() if p == 'eq' and tv]:
            d = flow.subst(flow.subst(d, self.inv.get('sub') or {}), self.its)
            for m, k in d.t:
                if len(m) == 1 and atom_of(m[0])[0] == 'it':
                    k = k - (1 << 64) if k >> 63 else k
                    q = div_exact(d - Aid(m[0]).scale(k), k)
                    if q is not None and m[0] not in q.atoms(): self.its[m[0]] = -q; break
        off = lin(0)
        for e in st.ev:
            if e.k == 'write':
                n = self.n(e.a[2]); t = Tok(off, n, self.n(e.a[1]), e.a[3], loc=e.loc)
            elif e.k == 'loop' and has_io([e], ('write',)):
                r = summarize(fl, st, e, 'write')
                key = self.n(r.x0)
                cnt = self.n(r.count)
                if r.kind == 'psum':
                    es = r.cells['esize']
                    t = Tok(off, cnt.scale(8), key, e.mi, 'psum', key, r.loc, A('total', self.total_key(key)))
                else:
                    t = Tok(off, A('total', self.total_key(key)).scale(self.esize(key)), key, e.mi, 'rows', key, r.loc)
                for a in r.acc: self.hv[a] = A('total', self.total_key(key)).scale(self.esize(key))
            else: continue
            self.toks.append(t); off = off + t.len
        self.total = off
        # facts about what the loops accumulated, restated in terms of what was written
        self.known = {}; self.al = {}; self.possible = True
        fs = [(Aid(a) - v, True) for a, v in st.sub.items()] + [(x, tv) for (p, x, y), tv in st.facts.items() if p == 'eq']
        for d, tv in fs:
            if not (set(d.atoms()) | {y for x in d.atoms() if atom_of(x)[0] == 'ad' for y in atom_of(x)[2].atoms()}) & set(self.hv): continue
            q = cond_cmp('eq', flow.subst(d, self.hv), ZERO)
            if q is True or q is False: self.possible &= q == tv; continue
            if self.known.setdefault(q[1], tv != q[3]) != (tv != q[3]): self.possible = False
            if tv != q[3]:
                for m, k in q[1].t:
                    if len(m) == 1 and atom_of(m[0])[0] == 'ad' and k in (1, (1 << 64) - 1): self.al[m[0]] = (Aid(m[0]) - q[1]) if k == 1 else (Aid(m[0]) + q[1])
        for t in self.toks: t.off = self.n(t.off); t.len = self.n(t.len)
        self.total = self.n(self.total)
    def total_key(self, key): return self.inv.get(('total', key), key)
    def esize(self, key): return self.inv.get(('esize', key), 4)
    def n(self, l):
        l = self.fl.norm(self.st, l)
        if self.its: l = flow.subst(l, self.its)
        if self.hv: l = flow.subst(l, self.hv)
        if self.inv.get('sub'): l = flow.subst(l, self.inv['sub'])
        if getattr(self, 'al', None): l = flow.subst(l, self.al)
        return self.narrow(self.realign(l))
    def aligned(self):
        out = getattr(self, 'alx', None)
        if out is None:
            out = [(atom_of(a)[1], v) for a, v in self.st.sub.items() if atom_of(a)[0] == 'ad' and atom_of(a)[2] == v and v.t]
            if hasattr(self, 'al'):
                out += [(atom_of(a)[1], v) for a, v in self.al.items() if atom_of(a)[2] == v and v.t]
                self.alx = out
        return out
    def realign(self, l):
        """round(x + y) = x + round(y) for x known to be aligned"""
        ads = [a for a in l.atoms() if atom_of(a)[0] == 'ad']
        if not ads: return l
        sub = {}
        for a in ads:
            k, y = atom_of(a)[1], atom_of(a)[2]
            for q, x in self.aligned():
                if q % k or x == y and not x.t: continue
                xs = dict(x.t); ys = dict(y.t)
                if all(ys.get(m) == c for m, c in xs.items()):
                    sub[a] = x + self.realign(mk_ad(k, y - x)) ; break
        return flow.subst(l, sub) if sub else l
    def narrow(self, l):
        """drop truncations that cannot change the value on this path"""
        sub = {}
        for a in l.atoms():
            t = atom_of(a)
            if t[0] == 'w' and t[2].c == 0 and len(t[2].t) == 1 and t[2].t[0][1] == 1 and len(t[2].t[0][0]) > 1 and all(width(x) <= t[1] for x in t[2].t[0][0]):
                sub[a] = Lin(0, t[2].t); continue     # dimensions of a table: the product is assumed not to overflow
            if t[0] == 'w' and len(t[2].t) == 1:
                w = t[1]; c = t[2].c & ((1 << w) - 1)
                c = c - (1 << w) if c >> (w - 1) else c
                x = Lin(0, t[2].t); i = x.single()
                if i is None or width(i) > w: continue
                if c == -1 and (x in self.inv.get('nz', ()) or self.fl.decide(self.st, cond_cmp('eq', x, ZERO)) is False): sub[a] = x - ONE
        return flow.subst(l, sub) if sub else l
    def find(self, p, n):
        """(token, offset in it) holding stream bytes [p, p+n)"""
        sy = None
        for t in self.toks:
            d = p - t.off; c = d.sconst
            if c is not None:
                if c < 0: continue
                if t.len.const is not None:
                    if c + n <= t.len.c: return t, d
                    if c < t.len.c: raise Unclear('value straddles two saved items')
                    continue
                if sy is None or c == 0: sy = (t, d)
            elif nonneg(d) and (nonneg(t.len - d - lin(n)) or (t.len - d).const is None and nonneg(t.len - d)): sy = (t, d)
            elif t.kind in ('psum',) and (t.len - d).sconst is not None and (t.len - d).sconst >= n: sy = (t, d)
        return sy
    def value(self, p, n):
        f = self.find(p, n)
        if f is None: return None
        t, d = f
        if t.kind == 'psum':
            return t.tot if d == t.len - lin(8) and n == 8 else A('sump', t.key, d)
        if t.kind == 'rows': return A('elem', t.key, d, n)
        return self.n(self.fl._load(self.st, t.addr + d, n, t.mi))

class Replay:
    """one path of Load (reads) or Mmap (image loads) against an Image"""
    def __init__(self, img, fl, st, map_arg=None, size_arg=None, size=None):
        self.img = img; self.fl = fl; self.st = st; self.pos = {}; self.c = {}
        self.map = map_arg; self.size = size_arg; self.sizev = size
        self.rows = {}          # container atom -> (token position, Rows)
        self.totals = {}        # container address -> total elements
        self.reads = []         # (position, length, destination, tag, event)
        self.hv = {}
        self.sizes = {}
        self.p = lin(0); self.err = None
        try: self.replay()
        except Unclear as e: self.err = e
        self.end = self.p
    def replay(self):
        p = lin(0); st = self.st; fl = self.fl; img = self.img
        for e in st.ev:
            self.p = p
            if e.k == 'read':
                n = self.S(e.a[2])
                self.pos[e.a[3]] = p; self.reads.append((p, n, fl.norm(st, e.a[1]), e.a[3], e)); p = p + n
            elif e.k == 'call' and re.search('6resizeEm', e.a[0] or '') and len(e.a[1]) > 1:
                self.sizes[fl._load(st, fl.norm(st, e.a[1][0]), 8, e.mi + 1)] = self.S(e.a[1][1])
            elif e.k == 'loop' and has_io([e], ('read',)):
                r = summarize(fl, st, e, 'read'); x0 = fl.norm(st, r.x0)
                if r.kind == 'psum':
                    cnt = self.count(x0, r)
                    n = cnt.scale(8)
                    self.pos[('psum', r.uid)] = p
                    last = img.value(p + n - lin(8), 8)
                    k = r.prevkey
                    first = self.S(fl.norm(st, e.a[3][k[1]])) if k[0] == 'v' else self.S(fl._load(st, k[1][0], k[1][1], loop_start(e, fl, k)))
                    if last is None: raise Unclear('row boundaries are read from outside the saved data (%s + %s)' % (p, n))
                    tot = last - first
                    got = set()
                    for rx, c in r.cells['resized'].items():
                        b = split_it(rx, r.uid)
                        if b is None: raise Unclear('row container not followed')
                        self.totals[fl.norm(st, b[0])] = tot; got.add(fl.norm(st, b[0]))
                    f = img.find(p, 8)
                    if f is None or f[0].kind == 'psum' and f[1] != ZERO: raise Unclear('row boundaries are read from a different place than they were saved to')
                else:
                    tot = self.totals.get(x0)
                    if tot is None: raise Unclear('rows read at %s were not sized from the saved row boundaries' % r.loc)
                    n = tot.scale(4)
                    self.rows[x0] = (p, n, r)
                for a in r.acc: self.hv[a] = n
                p = p + n
        self.p = p
    def count(self, x0, r):
        if x0 in self.sizes: return self.sizes[x0]
        return self.S(r.count)
    def S(self, l):
        """replace what was read by what was saved"""
        l = self.fl.norm(self.st, l)
        return self.img.n(self.walk(l))
    def walk(self, l):
        r = self.c.get((l, len(self.pos), len(self.hv)))
        if r is not None: return r
        out = Lin(l.c, ())
        for m, k in l.t:
            term = Lin(k, ())
            for a in m:
                v = self.at(a); term = term * (Aid(a) if v is None else v)
            out = out + term
        self.c[(l, len(self.pos), len(self.hv))] = out
        return out
    def at(self, a):
        t = atom_of(a)
        if a in self.hv: return self.hv[a]
        if t[0] == 'ld' and self.img.inv.get('anyver'):
            v = self.img.inv['anyver'].get((t[2], t[3]))
            if v is not None: return v
        if t[0] == 'in':
            if t[1] not in self.pos: return None
            v = self.img.value(self.pos[t[1]] + self.walk(t[2] if isinstance(t[2], Lin) else lin(t[2])), t[3])
            return v
        if self.map is not None and t[0] == 'ld':
            ad = self.walk(t[2])
            d = ad - self.map
            if self.fl.root(ad) == self.map.single():
                v = self.img.value(self.img.n(d), t[3])
                if v is not None: return v
            if ad != t[2]: return A('ld', t[1], ad, t[3])
            return None
        if self.size is not None and a == self.size.single(): return self.sizev
        n = []; ch = False
        for x in t[1:]:
            y = self.any(x)
            if y is not x and y != x: ch = True
            n.append(y)
        if not ch: return None
        k = t[0]
        if k == 'ad': return mk_ad(t[1], n[1])
        if k == 'w': return trunc(n[1], t[1])
        if k == 'bin': return binop(n[0], n[1], n[2], n[3])
        if k == 'bool': return cond_val(n[0])
        if k == 'sext': return sext(n[2], n[0], n[1])
        v = A(k, *n)
        if a in flow.PTR: flow.PTR.add(v.single())
        return v
    def any(self, x):
        if isinstance(x, Lin): return self.walk(x)
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] in ('eq', 'ult', 'slt', 'and', 'or') and isinstance(x[3], bool): return self.cond(x)
            y = tuple(self.any(z) for z in x)
            return y if y != x else x
        return x
    def cond(self, c):
        if c is True or c is False: return c
        p, a, b, neg = c
        if p in ('and', 'or'):
            x, y = self.cond(a), self.cond(b)
            r = flow.mk_and(x, y) if p == 'and' else flow.mk_or(x, y)
        elif p == 'eq':
            x = self.walk(a)
            for y in (x, -x):
                i = y.single()
                if i is not None and atom_of(i)[0] == 'bool': x = y
            r = cond_cmp('eq', x, ZERO, b)
        else: r = cond_cmp(p, self.walk(a), self.walk(b))
        if r is True or r is False: return r != neg
        return cond_not(r) if neg else r
    def truth(self, c):
        """truth of a condition of the reading path given what was saved; None when undetermined"""
        c = self.cond(c)
        if c is True or c is False: return c
        if c[0] == 'eq':
            q = cond_cmp('eq', self.img.n(c[1]), ZERO, c[2])
            if q is True or q is False: return q != c[3]
            c = cond_not(q) if c[3] else q
        if c[0] in ('and', 'or'):
            x, y = self.truth(c[1]), self.truth(c[2])
            r = (False if x is False or y is False else True if x is True and y is True else None) if c[0] == 'and' else (True if x is True or y is True else False if x is False and y is False else None)
            return None if r is None else r != c[3]
        r = self.img.fl.decide(self.img.st, c)
        if r is not None: return r
        if c[0] == 'eq' and (c[1] in self.img.inv.get('nz', ()) or -c[1] in self.img.inv.get('nz', ())): return False != c[3]
        if c[0] == 'eq' and c[1] in self.img.known: return self.img.known[c[1]] != c[3]
        nz = self.img.inv.get('nz', ())
        if c[0] == 'eq':
            d = self.img.n(c[1])
            if nonneg(d - lin(1), nz) or nonneg(-d - lin(1), nz): return False != c[3]
        if c[0] in ('ult', 'slt'):
            d = self.img.n(c[1] - c[2])
            if nonneg(d, nz): return False != c[3]
            d = self.img.n(c[2] - c[1])
            if nonneg(d - lin(1), nz): return True != c[3]
        return None
    def infeasible(self):
        """why this path cannot be taken on this image (None: it can)"""
        for e in self.st.ev:
            if e.k != 'branch': continue
            t = self.truth(e.a[0])
            if t is not None and t != e.a[1]: return '%s: %s' % (e.loc, show_cond(e.a[0])[:80])
        for (p, x, y), tv in self.st.facts.items():
            if p in ('and', 'or'): continue
            t = self.truth((p, x, y, False))
            if t is not None and t != tv: return show_cond((p, x, y, False))[:80]
        for a, v in self.st.sub.items():
            if atom_of(a)[0] == 'ad':
                t = self.truth(cond_cmp('eq', self.walk(Aid(a)), self.walk(v)))
                if t is False: return '%s is not %s' % (show(Aid(a))[:60], v)
            if atom_of(a)[0] in ('in', 'ld'):
                x = self.walk(Aid(a)) if a not in self.st.sub else self.at(a); 
                if x is None: continue
                d = x - self.walk(v)
                if d.const is not None and d.c != 0: return '%s is not %s' % (show(Aid(a))[:60], v)
        return None

def loop_start(e, fl, k):
    return e.a[5] if len(e.a) > 5 else 0
