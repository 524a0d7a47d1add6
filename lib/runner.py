"""Abstract interpretation of the matching runners.

A product of the normalised IR of a runner with a specification automaton (the `ghost`): a cursor into the
text, which copy of the scanner state is current, what Final()/Dead() said about it, the last and the first
accepting position.  Values are linear expressions over the (aligned) ends of the text and a symbolic cursor
base introduced at loop heads, or byte vectors that remember which text byte every byte came from.  The text's
alignment is partitioned (16 x 16 cases, the ends being symbolic otherwise); order facts live in one interval
per pair of base symbols.  Loops converge by generalising over the cursor.  Nothing is executed and no solver
is involved.
"""
import flow

W = (1 << 64) - 1
ALIGN = 16
INF = 1 << 62

class Unsupported(Exception): pass

def L(c=0, **k): return ('L', (), c & W)
def sym(n): return ('L', ((n, 1),), 0)
def isl(v): return v[0] == 'L'
def ladd(x, y, k=1):
    if not y[1]: return ('L', x[1], (x[2] + k * y[2]) & W)
    d = dict(x[1])
    for s, c in y[1]:
        n = (d.get(s, 0) + k * c) & W
        if n: d[s] = n
        else: d.pop(s, None)
    return ('L', tuple(sorted(d.items())), (x[2] + k * y[2]) & W)
def lc(x, n): return ('L', x[1], (x[2] + n) & W)
def lscale(x, k): return ('L', tuple((s, (c * k) & W) for s, c in x[1] if (c * k) & W), (x[2] * k) & W)
def const(x): return x[2] if x[0] == 'L' and not x[1] else None
def sg(n): return n - (1 << 64) if n >> 63 else n
TOP = ('T',)

def vsub(v, m):
    """substitute symbols by linear expressions, everywhere inside a value"""
    k = v[0]
    if k == 'L':
        if not any(s in m for s, _ in v[1]): return v
        r = ('L', tuple((s, c) for s, c in v[1] if s not in m), v[2])
        for s, c in v[1]:
            if s in m: r = ladd(r, lscale(m[s], c))
        return r
    if k in ('B', 'V', 'Q', 'M'): return (k,) + tuple(vsub(x, m) if isinstance(x, tuple) else x for x in v[1:])
    return v
def syms(v, out):
    if v[0] == 'L': out.update(s for s, _ in v[1])
    elif v[0] in ('B', 'V', 'Q', 'M'):
        for x in v[1:]:
            if isinstance(x, tuple): syms(x, out)
    return out

# bytes: ('k', n) constant, ('M', addr) text byte, ('o', id, i) byte i of an opaque value
def to_bytes(v, n):
    if v[0] == 'B': b = v[1:]; return b[:n] + (('k', 0),) * (n - len(b))
    if v[0] == 'L':
        if not v[1]: return tuple(('k', (v[2] >> (8 * i)) & 255) for i in range(n))
        return tuple(('o', v, i) for i in range(n))
    if v[0] == 'S': return tuple(('o', v, i) for i in range(n))
    if v[0] == 'A': return tuple(('o', v, i) if i < 4 else ('k', 0) for i in range(n))
    return None
def from_bytes(b):
    if all(x[0] == 'k' for x in b): return L(sum(x[1] << (8 * i) for i, x in enumerate(b)))
    t = b[0]
    if t[0] == 'o' and t[2] == 0:
        n = 0
        while n < len(b) and b[n] == ('o', t[1], n): n += 1
        need = {'A': 4}.get(t[1][0], 8)
        if n == min(need, len(b)) and n >= need and all(x == ('k', 0) for x in b[n:]): return t[1]
    return ('B',) + tuple(b)

class State:
    __slots__ = ('env', 'mem', 'g', 'lo', 'hi', 'nlen', 'prev', 'bl', 'ip', 'last', 'gen', 'push', 'enter', 'done')
    def copy(self):
        n = State(); n.env = dict(self.env); n.mem = dict(self.mem)
        n.g = {k: dict(v) for k, v in self.g.items()}
        n.lo = dict(self.lo); n.hi = dict(self.hi); n.nlen = self.nlen; n.prev = self.prev; n.bl = self.bl; n.ip = self.ip
        n.last = dict(self.last); n.gen = self.gen; n.push = self.push; n.enter = self.enter; n.done = self.done
        return n

GKEYS = ('cur', 'lf', 'ff', 'tag', 'fin', 'dead', 'bm', 'em', 'init', 'acted')

class Violation(Exception):
    def __init__(self, rule, ins, what): self.rule = rule; self.ins = ins; self.what = what

class Runner:
    ALIGN = ALIGN
    """spec: dict(begin=, end= (values), dir=+1/-1, scanners=..., ret=callable(run, st, value))"""
    def __init__(self, mod, fn, spec, a, b):
        self.m = mod; self.f = fn; self.spec = spec
        self.a = a; self.b = b; self.dir = spec.get('dir', 1)
        self.BEG = lc(sym('BEG'), a); self.END = lc(sym('END'), b)
        self.heads = flow.natural_loops(fn)
        self.live = liveness(fn); self.used = consumed(fn)
        self.seen = {}; self.viol = []; self.checked = {}; self.steps = 0; self.rets = 0
        self.nbytes = 0; self.nfresh = 0; self.blocks = set()

    # ---- order facts --------------------------------------------------------------------------
    def remaining(self, cur, st=None):
        return ladd(self.END, cur, -1) if self.dir > 0 else ladd(cur, self.END, -1)
    def pair(self, d, st=None):
        """d == +-(x - y) + c for base symbols x, y: ((x, y), sign, c)"""
        if len(d[1]) != 2: return None
        (s, c), (t, e) = d[1]
        if c == 1 and e == W: p, n = s, t
        elif c == W and e == 1: p, n = t, s
        else: return None
        order = ['BEG', 'K', 'END']
        rk = lambda x: 0 if x == 'BEG' else 2 if x == 'END' else 1
        if not all(x in ('BEG', 'END') or x[0] == 'K' for x in (p, n)): return None
        if self.dir < 0: big = rk(p) < rk(n)
        else: big = rk(p) > rk(n)
        if rk(p) == rk(n):
            if st is None: return None
            if (p, n) in st.lo: return ((p, n), 1, sg(d[2]))
            if (n, p) in st.lo: return ((n, p), -1, sg(d[2]))
            return None
        return ((p, n), 1, sg(d[2])) if big else ((n, p), -1, sg(d[2]))
    def interval(self, st, d):
        c = const(d)
        if c is not None: return sg(c), sg(c)
        p = self.pair(d, st)
        if p is None: return None
        k, s, c = p
        lo, hi = st.lo.get(k, 0), st.hi.get(k, INF)
        if s > 0: return lo + c, hi + c
        return -hi + c, -lo + c
    def restrict(self, st, d, lo=None, hi=None):
        """learn lo <= d <= hi; False when infeasible"""
        p = self.pair(d, st)
        if p is None: return True
        k, s, c = p
        if s < 0: lo, hi = (None if hi is None else -hi), (None if lo is None else -lo); c = -c
        l0, h0 = st.lo.get(k, 0), st.hi.get(k, INF)
        if lo is not None: l0 = max(l0, -((c - lo) // self.ALIGN) * self.ALIGN)     # M >= lo - c, rounded up
        if hi is not None: h0 = min(h0, ((hi - c) // self.ALIGN) * self.ALIGN)
        if l0 > h0: return False
        st.lo[k] = l0; st.hi[k] = h0
        if l0 == h0:
            x, y = k      # x - y == l0
            if x == 'END': self.subst(st, {y: lc(sym('END'), -l0)})
            elif y == 'END': self.subst(st, {x: lc(sym('END'), l0)})
            elif x == 'BEG': self.subst(st, {y: lc(sym(x), -l0)})
            else: self.subst(st, {x: lc(sym(y), l0)})
        return True
    def subst(self, st, m):
        st.env = {k: vsub(v, m) for k, v in st.env.items()}
        st.mem = {k: (n, vsub(v, m)) for k, (n, v) in st.mem.items()}
        for g in st.g.values():
            for k in ('cur', 'lf', 'ff'):
                if isinstance(g[k], tuple): g[k] = vsub(g[k], m)
        lo, hi = st.lo, st.hi; st.lo = {}; st.hi = {}
        for src, up in ((lo, False), (hi, True)):
            for k, v in src.items():
                if not (k[0] in m or k[1] in m):
                    t = st.hi if up else st.lo
                    t[k] = (min if up else max)(t[k], v) if k in t else v
                    continue
                x = [m.get(q, sym(q)) for q in k]
                (p, c), (q, e) = (x[0][1][0][0], sg(x[0][2])), (x[1][1][0][0], sg(x[1][2]))
                if p == q: continue
                v = v - c + e           # p + c - q - e >= v
                t = st.hi if up else st.lo
                t[(p, q)] = (min if up else max)(t[(p, q)], v) if (p, q) in t else v

    # ---- values ---------------------------------------------------------------------------------
    def fresh(self, tag='u'):
        self.nfresh += 1
        return sym('%s%d' % (tag, self.nfresh))
    def val(self, st, o):
        k = o[0]
        if k == 'i': return st.env.get(o[1], TOP)
        if k == 'p': return st.env.get(('p', o[1]), TOP)
        if k in ('c', 'C'): return L(int(o[1]))
        if k == 'n': return L(0)
        if k == 'g': return sym('@' + o[1])
        if k == 'f': return ('F', o[1])
        if k == 'ge': return lc(self.val(st, o[1]), o[2])
        if k == 'ce' and o[1] in ('inttoptr', 'ptrtoint', 'bitcast'): return self.val(st, o[2])
        if k == 'zero': return L(0)
        return TOP

    # ---- ghost: the specification automaton ------------------------------------------------------
    def newghost(self, init):
        return dict(cur=self.BEG, lf=None, ff=None, tag='cur' if init else None, fin=None, dead=None, bm=False, em=False, n=0, hf=frozenset())
    def cell(self, st, addr):
        k = self.slot(addr)
        return st.mem.get(k, (0, None))[1] if k else None
    def slot(self, a):
        if a[0] == 'L' and len(a[1]) == 1 and a[1][0][1] == 1: return (a[1][0][0], sg(a[2]))
        return None
    def retag(self, st, sc, new):
        old = ('S', sc, 'cur')
        st.env = {k: (('S', sc, new) if v == old else v) for k, v in st.env.items()}
        st.mem = {k: (n, ('S', sc, new) if v == old else v) for k, (n, v) in st.mem.items()}
    def bad(self, rule, ins, what): raise Violation(rule, ins, what)
    def ok(self, rule, ins): self.checked.setdefault((rule, ins.get('i') if ins else None), ins)
    def here(self, g): return g['cur']
    def complete(self, g): return g['cur'] == self.END
    def missed(self, g):
        """a position that was never asked about (unless the scanner is known to be dead)"""
        if g['fin'] is None and g['dead'] is not True and self.spec.get('pos') and not (self.spec.get('first') and not g['bm'] and self.wantfirst):
            p = self.spec['pos']
            if p == 'lf' or g['ff'] is None: g[p] = '?'
    def call_next(self, st, sc, addr, ch, ins):
        g = st.g.get(sc)
        if g is None: raise Unsupported('Next() of an unknown scanner')
        if self.cell(st, addr) != ('S', sc, 'cur') or g['tag'] != 'cur':
            self.bad('step', ins, 'the scanner is stepped from a state other than the one reached so far')
        self.ok('step', ins)
        sp = self.spec; c = const(ch) if ch[0] == 'L' else None
        if sp.get('single') is not None:
            if ch != sp['single'] or g['n']: self.bad('letter', ins, 'the letter given is not the one stepped with, once')
            self.ok('letter', ins)
        elif c is not None:
            first, last = sp.get('first'), sp.get('last')
            if first and c == first[0]:
                if not self.wantfirst or g['bm'] or g['n'] or g['em']: self.bad('mark', ins, 'mark %d is fed when it was not asked for, twice, or after text' % c)
                g['bm'] = True
            elif last and c == last[0]:
                if not self.wantlast or g['em']: self.bad('mark', ins, 'mark %d is fed when it was not asked for, or twice' % c)
                if not self.complete(g) and g['dead'] is not True and not (sp['pos'] == 'ff' and isinstance(g['ff'], tuple)):
                    self.bad('mark', ins, 'mark %d is fed before all of the text' % c)
                self.missed(g); g['em'] = True
            else: self.bad('letter', ins, 'letter %d is not part of the text' % c)
            self.ok('mark', ins)
        else:
            b = to_bytes(ch, 2)
            want = g['cur'] if self.dir > 0 else g['cur']
            if b is None or b[1] != ('k', 0) or b[0][0] != 'M' or b[0][1] != want:
                self.bad('letter', ins, 'the letter fed is not the next byte of the text, zero-extended%s' % (
                    ' (it is the byte at offset %+d from it)' % sg(ladd(b[0][1], want, -1)[2]) if b and b[0][0] == 'M' and not ladd(b[0][1], want, -1)[1] else ''))
            iv = self.interval(st, self.remaining(g['cur']))
            if iv is None or iv[0] < 1: self.bad('end', ins, 'a byte may be fed beyond the end of the text')
            if self.wantfirst and not g['bm']: self.bad('mark', ins, 'text is fed before the requested mark')
            if g['em']: self.bad('mark', ins, 'text is fed after the closing mark')
            self.ok('letter', ins); self.ok('end', ins)
            self.missed(g)
            g['cur'] = lc(g['cur'], self.dir); self.nbytes += 1
        g['n'] = 1; g['fin'] = None; g['tag'] = 'mid'; g['hf'] = frozenset()
        if g['dead'] is not True: g['dead'] = None
        self.retag(st, sc, 'old')
        st.mem[self.slot(addr)] = (8, ('S', sc, 'mid'))
        return ('A', sc)
    def call_act(self, st, sc, addr, act, ins):
        g = st.g.get(sc)
        if g is None: raise Unsupported('TakeAction() of an unknown scanner')
        if self.cell(st, addr) != ('S', sc, 'mid') or g['tag'] != 'mid': self.bad('action', ins, 'TakeAction() does not follow Next() on the same state')
        if act != ('A', sc): self.bad('action', ins, 'the action performed is not the one Next() returned')
        self.ok('action', ins)
        g['tag'] = 'cur'; st.mem[self.slot(addr)] = (8, ('S', sc, 'cur'))
    def call_init(self, st, sc, addr, ins):
        if sc not in st.g: st.g[sc] = self.newghost(False)
        g = st.g[sc]
        if g['tag'] is not None: self.bad('init', ins, 'the state is initialised twice')
        self.ok('init', ins)
        g['tag'] = 'cur'; st.mem[self.slot(addr)] = (8, ('S', sc, 'cur'))
    def call_pred(self, st, which, sc, addr, ins):
        """[(state, value)]"""
        g = st.g.get(sc)
        if g is None: raise Unsupported('%s() of an unknown scanner' % which)
        c = self.cell(st, addr)
        if c is None:
            v = st.mem.get(self.slot(addr)) if self.slot(addr) else None
        if c != ('S', sc, 'cur') or g['tag'] != 'cur':
            return [(st, L(1)), (st.copy(), L(0))]
        out = []
        k = 'fin' if which == 'Final' else 'dead'
        if g[k] is not None: return [(st, L(1 if g[k] else 0))]
        t = st.copy()
        counts = not (self.spec.get('first') and self.wantfirst and not g['bm'])
        if which == 'Final':
            if g['dead'] is not True:
                tg = t.g[sc]; tg['fin'] = True
                if counts and self.spec.get('pos'):
                    p = self.spec['pos']
                    if p == 'lf' or tg['ff'] is None: tg[p] = self.here(tg)
                out.append((t, L(1)))
            g['fin'] = False; out.append((st, L(0)))
        else:
            if g['fin'] is not True:
                t.g[sc]['dead'] = True; out.append((t, L(1)))
            g['dead'] = False; out.append((st, L(0)))
        return out

    # ---- execution -----------------------------------------------------------------------------
    def byteload(self, st, addr, n, ins):
        return ('B',) + tuple(('M', lc(addr, i)) for i in range(n))
    def istext(self, a):
        return a[0] == 'L' and len(a[1]) == 1 and a[1][0][1] == 1 and (a[1][0][0] in ('BEG', 'END') or a[1][0][0][0] == 'K')
    def textload(self, st, addr, n, ins):
        """a read must lie within an aligned word, or vector, holding the byte at some cursor with text left"""
        r = addr[2] % self.ALIGN
        if n > 1 and r % n: self.bad('overread', ins, 'a %d-byte read that may straddle a page reaches outside the text' % n)
        good = False
        for g in st.g.values():
            d = ladd(g['cur'], addr, -1); c = const(d)
            if c is None: continue
            c = sg(c)
            iv = self.interval(st, self.remaining(g['cur']))
            if 0 <= c < n and iv and iv[0] >= 1: good = True
        if not good:
            # or at least overlap the text
            iv = self.interval(st, ladd(self.END, addr, -1)); iv2 = self.interval(st, ladd(addr, self.BEG, -1))
            if self.dir > 0 and iv and iv[0] >= 1 and iv2 and iv2[0] >= -n + 1: good = True
        if not good: self.bad('overread', ins, 'memory outside the words that hold the text is read')
        self.ok('overread', ins)
        b = tuple(('M', lc(addr, i)) for i in range(n))
        return ('B',) + b
    def load(self, st, addr, n, ins):
        if self.istext(addr): return self.textload(st, addr, n, ins)
        if any(s == 'LOST' for s, _ in addr[1]): self.bad('skip', ins, 'text is passed over that was neither fed to the scanner nor shown to leave it in its state')
        k = self.slot(addr)
        if k is None: return self.hook_load(st, addr, n, ins)
        if k in st.mem and st.mem[k][0] == n: return st.mem[k][1]
        for (r, o), (m, v) in st.mem.items():
            if r == k[0] and o < k[1] + n and k[1] < o + m:
                if o <= k[1] and k[1] + n <= o + m:
                    b = to_bytes(v, m)
                    if b: return from_bytes(b[k[1] - o:k[1] - o + n])
                return TOP
        v = self.hook_load(st, addr, n, ins)
        st.mem[k] = (n, v)
        return v
    def hook_load(self, st, addr, n, ins): return self.fresh('u')
    def store(self, st, addr, n, v, ins):
        k = self.slot(addr)
        if k is None or self.istext(addr): raise Unsupported('store through %s' % (addr,))
        for (r, o) in [x for x in st.mem if x[0] == k[0]]:
            m = st.mem[(r, o)][0]
            if o < k[1] + n and k[1] < o + m: del st.mem[(r, o)]
        st.mem[k] = (n, v)
    def memcpy(self, st, d, s, n, ins):
        if n == 0: return
        ks, kd = self.slot(s), self.slot(d)
        if ks is None or kd is None or self.istext(d): raise Unsupported('memcpy')
        if not any(r == ks[0] and o < ks[1] + n and ks[1] < o + m for (r, o), (m, _) in st.mem.items()):
            if n <= 8: self.load(st, s, n, ins)
        cells = [(o, m, v) for (r, o), (m, v) in st.mem.items() if r == ks[0] and o >= ks[1] and o + m <= ks[1] + n]
        self.store(st, d, n, TOP, ins); del st.mem[kd]
        for o, m, v in cells: st.mem[(kd[0], kd[1] + o - ks[1])] = (m, v)

    def cmp(self, st, p, x, y, ins):
        """[(state, truth)]"""
        if x[0] == 'L' and y[0] == 'L':
            d = ladd(y, x, -1)       # y - x
            for v, o in ((x, y), (y, x)):
                if const(o) == 0 and self.nonnull(v):
                    r = {'eq': False, 'ne': True, 'ugt': v is x, 'ult': v is y, 'uge': v is x, 'ule': v is y}.get(p)
                    if r is not None: return [(st, r)]
            c = const(d)
            if c is not None and (x[1] or y[1] or True):
                if not x[1]:
                    a, b = x[2], y[2]
                    if p[0] == 's':
                        w = ins.get('ow') or 64; a, b = [z - (1 << w) if z >> (w - 1) else z for z in (a, b)]
                    r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]]
                    return [(st, r)]
                c = sg(c)            # pointers into the text: no wrap-around
                r = {'eq': c == 0, 'ne': c != 0, 'lt': c > 0, 'le': c >= 0, 'gt': c < 0, 'ge': c <= 0}[p if p in ('eq', 'ne') else p[1:]]
                return [(st, r)]
            iv = self.interval(st, d)
            if iv is not None:
                def side(lo, hi, truth):
                    s = st.copy()
                    if (lo is not None and iv[1] < lo) or (hi is not None and iv[0] > hi): return []
                    if not self.restrict(s, d, lo, hi): return []
                    return [(s, truth)]
                q = p if p in ('eq', 'ne') else p[1:]
                if q in ('eq', 'ne'):
                    r = side(0, 0, q == 'eq')
                    # d != 0: only the lower side is excluded when lo == 0
                    if iv[0] == 0: r += side(1, None, q == 'ne')
                    elif iv[1] == 0: r += side(None, -1, q == 'ne')
                    elif self.excluded(d, st): return [(st, q == 'ne')]
                    else: r += [(st.copy(), q == 'ne')]
                elif q == 'lt': r = side(1, None, True) + side(None, 0, False)
                elif q == 'le': r = side(0, None, True) + side(None, -1, False)
                elif q == 'gt': r = side(None, -1, True) + side(0, None, False)
                else: r = side(None, 0, True) + side(1, None, False)
                if len(r) > 1:
                    for s, _ in r: s.nlen += 1
                return r
        r = self.hook_cmp(st, p, x, y, ins)
        if r is not None: return r
        if p == 'eq' and x == y and x != TOP: return [(st, True)]
        return [(st, True), (st.copy(), False)]
    def hook_cmp(self, st, p, x, y, ins): return None
    def excluded(self, d, st):
        return sg(d[2]) % self.ALIGN != 0 and self.pair(d, st) is not None
    def nonnull(self, v):
        return v[0] == 'L' and bool(v[1]) and all(s in ('BEG', 'END') or s[0] in 'K@ah' for s, _ in v[1]) and len(v[1]) == 1 and v[1][0][1] == 1

    def binop(self, st, o, x, y, w, ins):
        m = (1 << w) - 1
        if x[0] == 'L' and y[0] == 'L':
            cx, cy = const(x), const(y)
            if cx is not None and cy is not None:
                try:
                    r = {'add': cx + cy, 'sub': cx - cy, 'mul': cx * cy, 'and': cx & cy, 'or': cx | cy, 'xor': cx ^ cy,
                         'shl': cx << cy if 0 <= cy < w else 0, 'lshr': (cx & m) >> cy if 0 <= cy < w else 0, 'udiv': cx // cy if cy else 0, 'urem': cx % cy if cy else 0}[o]
                except KeyError: return TOP
                return L(r & m)
            if w == 64:
                if o == 'add': return ladd(x, y)
                if o == 'sub': return ladd(x, y, -1)
                if o == 'mul' and (cx is not None or cy is not None): return lscale(x, cy) if cy is not None else lscale(y, cx)
                if o == 'shl' and cy is not None and 0 <= cy < 64: return lscale(x, 1 << cy)
            if o == 'and' and (cy is not None or cx is not None):
                if cy is None: x, cy = y, cx
                if all(s in ('BEG', 'END') or s[0] == 'K' for s, _ in x[1]):       # the bases are aligned
                    low = (~cy & W)
                    if w == 64 and low & (low + 1) == 0 and low < self.ALIGN: return ('L', x[1], x[2] & cy)
                    if cy < self.ALIGN and cy & (cy + 1) == 0: return L(x[2] & cy)
                if cy & (cy + 1) == 0 and cy == m: return x
                if w == 64: return ('L', ((('and', x, cy), 1),), 0) if False else self.opaque(o, x, cy)
            if w == 64 and cy is not None and o in ('udiv', 'lshr'): return self.opaque(o, x, cy)
        if o in ('lshr', 'shl', 'and', 'or'):
            n = w // 8
            bx, by = to_bytes(x, n), to_bytes(y, n)
            cy = const(y) if y[0] == 'L' else None
            if o in ('lshr', 'shl') and bx and cy is not None and cy % 8 == 0:
                k = min(cy // 8, n); z = (('k', 0),)
                return from_bytes(bx[k:] + z * k if o == 'lshr' else z * k + bx[:n - k])
            if o in ('and', 'or') and bx and by:
                out = []
                for p, q in zip(bx, by):
                    if q[0] != 'k': p, q = q, p
                    if p[0] == 'k' and q[0] == 'k': out.append(('k', p[1] & q[1] if o == 'and' else p[1] | q[1]))
                    elif q[0] == 'k' and q[1] == (255 if o == 'and' else 0): out.append(p)
                    elif q[0] == 'k' and q[1] == (0 if o == 'and' else 255): out.append(q)
                    else: return TOP
                return from_bytes(tuple(out))
        return TOP
    def opaque(self, o, x, c):
        """a pure function of x, named so that equal expressions stay equal"""
        if any(s in ('BEG', 'END') or s[0] == 'K' for s, _ in x[1]): return TOP
        return sym('f:%s:%s:%s' % (o, x, c))

    def run(self):
        st = State(); st.env = {}; st.mem = {}; st.g = {}; st.lo = {}; st.hi = {}; st.nlen = 0; st.prev = None; st.bl = 0; st.ip = 0; st.last = {}; st.gen = 0; st.push = st.enter = st.done = None
        self.wantfirst = self.wantlast = False
        k = ('END', 'BEG') if self.dir > 0 else ('BEG', 'END')
        d = (self.a - self.b) * self.dir
        st.lo[k] = -((-d) // self.ALIGN) * self.ALIGN if d > 0 else 0
        self.spec['setup'](self, st)
        work = [st]
        while work and len(self.viol) < 12:
            s = work.pop()
            try: work += self.advance(s)
            except Violation as v: self.viol.append(v)
        return self
    def advance(self, st):
        while True:
            self.steps += 1
            if self.steps > 400000: raise Unsupported('no convergence in %s' % self.f.name)
            if st.ip == 0:
                self.blocks.add(st.bl)
                self.phis(st)
                if st.bl in self.heads:
                    if not self.header(st): return []
            blk = self.f.blocks[st.bl]
            ins = blk[st.ip]
            while ins['o'] == 'phi': st.ip += 1; ins = blk[st.ip]
            r = self.exec(st, ins)
            if r is None: st.ip += 1; continue
            return r
    def phis(self, st):
        new = {}
        for i in self.f.blocks[st.bl]:
            if i['o'] != 'phi': break
            for v, p in i['in']:
                if p == st.prev: new[i['i']] = self.val(st, v); break
        keep = self.live[st.bl]
        st.env = {k: v for k, v in st.env.items() if k in keep or isinstance(k, tuple)}
        st.env.update(new)
    def jump(self, st, b):
        st.prev = st.bl; st.bl = b; st.ip = 0
        lv = self.live[b]
        need = set(lv)
        for i in self.f.blocks[b]:
            if i['o'] != 'phi': break
            for v, p in i['in']:
                if p == st.prev and v[0] == 'i': need.add(v[1])
        st.env = {k: v for k, v in st.env.items() if k in need or isinstance(k, tuple)}
        return [st]
    def fork(self, st, ins, outs):
        """outs: [(state, value)]"""
        r = []; ip = st.ip + 1
        for s, v in outs:
            if v is not None: s.env[ins['i']] = v if isinstance(v, tuple) else L(1 if v else 0)
            s.ip = ip; r.append(s)
        return r
    def exec(self, st, ins):
        o = ins['o']
        if o == 'alloca': st.env[ins['i']] = sym('a%d' % ins['i']); return None
        if o in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            st.env[ins['i']] = self.hook_cast(st, self.val(st, ins['a'][0]), ins); return None
        if o == 'getelementptr':
            v = self.val(st, ins['a'][0])
            if v[0] == 'S': v = self.hook_state(st, v)
            if v[0] != 'L': st.env[ins['i']] = TOP; return None
            v = lc(v, ins.get('k', 0))
            for x, k in ins.get('v', []):
                xv = self.val(st, x)
                if isinstance(k, list) or xv[0] != 'L': v = TOP; break
                v = ladd(v, lscale(xv, k & W))
            st.env[ins['i']] = v; return None
        if o == 'load':
            a = self.val(st, ins['a'][0])
            if a[0] == 'S': a = self.hook_state(st, a)
            if a[0] != 'L': raise Unsupported('load through an unknown pointer')
            st.env[ins['i']] = self.load(st, a, ins['s'], ins); return None
        if o == 'store':
            v, a = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
            if a[0] != 'L': raise Unsupported('store through an unknown pointer')
            self.store(st, a, ins['s'], v, ins); return None
        if o == 'icmp':
            x, y = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
            r = self.hook_icmp(st, ins, x, y)
            if r is not None: st.env[ins['i']] = r; return None
            outs = self.cmp(st, ins['p'], x, y, ins)
            if len(outs) == 1 and outs[0][0] is st:
                st.env[ins['i']] = L(1 if outs[0][1] else 0); return None
            return self.fork(st, ins, outs)
        if o == 'select':
            c = self.val(st, ins['a'][0]); k = const(c) if c[0] == 'L' else None
            if k is None: return self.fork(st, ins, [(st.copy(), self.val(st, ins['a'][1])), (st, self.val(st, ins['a'][2]))])
            st.env[ins['i']] = self.val(st, ins['a'][1 if k & 1 else 2]); return None
        if o in ('zext', 'trunc'):
            v = self.val(st, ins['a'][0]); w = ins['w']; c = const(v) if v[0] == 'L' else None
            if c is not None: st.env[ins['i']] = L(c & ((1 << w) - 1)); return None
            if w < 8:
                b = to_bytes(v, 1)
                if b and b[0][0] == 'k': st.env[ins['i']] = L(b[0][1] & 1); return None
                st.env[ins['i']] = TOP; return None
            if o == 'zext':
                ow = ins.get('ow', 64)
                b = to_bytes(v, ow // 8) if ow >= 8 else None
            else: b = to_bytes(v, w // 8)
            st.env[ins['i']] = from_bytes(b[:w // 8] + (('k', 0),) * (w // 8 - len(b))) if b else TOP
            return None
        if o == 'sext':
            v = self.val(st, ins['a'][0]); c = const(v) if v[0] == 'L' else None
            ow = ins.get('ow', 64)
            r = self.hook_cast(st, v, ins) if v[0] in 'VQM' else TOP
            st.env[ins['i']] = L((c | (((1 << ins['w']) - 1) & ~((1 << ow) - 1))) if c is not None and c >> (ow - 1) else c) if c is not None else r
            return None
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'udiv', 'urem', 'ashr', 'sdiv', 'srem'):
            x, y = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
            r = self.hook_binop(st, o, x, y, ins)
            st.env[ins['i']] = r if r is not None else self.binop(st, o, x, y, ins.get('w') or 64, ins); return None
        if o in ('insertvalue', 'extractvalue', 'insertelement', 'extractelement', 'shufflevector'):
            return self.aggregate(st, ins)
        if o == 'br':
            if len(ins['d']) == 1: return self.jump(st, ins['d'][0])
            c = self.val(st, ins['a'][0]); k = const(c) if c[0] == 'L' else None
            if k is None:
                t = st.copy(); return self.jump(t, ins['d'][0]) + self.jump(st, ins['d'][1])
            return self.jump(st, ins['d'][0 if k & 1 else 1])
        if o == 'switch':
            c = self.val(st, ins['a'][0]); k = const(c) if c[0] == 'L' else None
            if k is None:
                r = []
                for b in self.f.succ(st.bl): r += self.jump(st.copy(), b)
                return r
            for v, b in ins['cs']:
                if int(v) == k: return self.jump(st, b)
            return self.jump(st, ins['df'])
        if o == 'ret':
            self.rets += 1
            v = self.val(st, ins['a'][0]) if ins.get('a') else None
            self.spec['ret'](self, st, v, ins)
            return []
        if o == 'unreachable': return []
        if o in ('call', 'invoke'):
            outs = self.call(st, ins)
            if o == 'invoke':
                r = []
                for s, v in outs or [(st, TOP)]:
                    if v is not None: s.env[ins['i']] = v
                    r += self.jump(s, ins['n'])
                return r
            if outs is None: return None
            if len(outs) == 1 and outs[0][0] is st:
                if outs[0][1] is not None: st.env[ins['i']] = outs[0][1]
                return None
            return self.fork(st, ins, outs)
        raise Unsupported(o)
    def aggregate(self, st, ins):
        o = ins['o']; a = ins.get('a', [])
        if o == 'insertvalue':
            base = self.val(st, a[0]); d = dict(base[1]) if base[0] == 'G' else {}
            d[tuple(ins.get('ix', []))] = self.val(st, a[1]); st.env[ins['i']] = ('G', tuple(sorted(d.items()))); return None
        if o == 'extractvalue':
            base = self.val(st, a[0]); d = dict(base[1]) if base[0] == 'G' else {}
            st.env[ins['i']] = d.get(tuple(ins.get('ix', [])), TOP); return None
        st.env[ins['i']] = TOP; return None
    def hook_cast(self, st, v, ins): return v
    def hook_state(self, st, v): raise Unsupported('the scanner state is dereferenced')
    def hook_icmp(self, st, ins, x, y): return None
    def hook_binop(self, st, o, x, y, ins): return None

    def call(self, st, ins):
        f = ins.get('f')
        if f is None: raise Unsupported('indirect call')
        a = [self.val(st, x) for x in ins.get('a', [])]
        if f.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias')): return [(st, None)]
        if f.startswith('llvm.memcpy') or f.startswith('llvm.memmove'):
            n = const(a[2]) if a[2][0] == 'L' else None
            if n is None: raise Unsupported('memcpy of unknown size')
            self.memcpy(st, a[0], a[1], n, ins); return [(st, None)]
        fn = self.m.fns.get(f); q = (fn.dname if fn else f).split('(')[0]; base = q.rsplit('::', 1)[-1]
        if base in ('Next', 'TakeAction', 'Initialize', 'Final', 'Dead') and len(a) >= 2:
            sc = a[0]
            if base == 'Next': return [(st, self.call_next(st, sc, a[1], a[2], ins))]
            if base == 'TakeAction': self.call_act(st, sc, a[1], a[2], ins); return [(st, None)]
            if base == 'Initialize': self.call_init(st, sc, a[1], ins); return [(st, None)]
            return self.call_pred(st, base, sc, a[1], ins)
        r = self.spec['call'](self, st, base, a) if 'call' in self.spec else None
        if r is not None: return [(st, r)]
        r = self.hook_call(st, f, base, a, ins)
        if r is not None: return r
        raise Unsupported('call to %s' % (fn.dname if fn else f))
    def hook_call(self, st, f, base, a, ins): return None

    # ---- loop heads --------------------------------------------------------------------------------
    def comps(self, st):
        c = {('e', k): v for k, v in st.env.items()}
        c.update({('m', k): v for k, v in st.mem.items()})
        for sc, g in st.g.items():
            for k, v in g.items(): c[('g', sc, k)] = v
        return c
    def header(self, st):
        """False when the state is subsumed; generalises in place otherwise"""
        h = st.bl
        g0 = next(iter(st.g.values()), None)
        cur = g0['cur'] if g0 else self.BEG
        self.forget(st); self.canon(st, h, cur)
        cur = g0['cur'] if g0 else self.BEG
        S = self.comps(st)
        seen = self.seen.setdefault((h, cur[2] % self.ALIGN, self.sig(st)), [])
        for T, tst in seen:
            if self.match(T, tst, S, st, cur, h): return False
        hist = st.last.get(h, ())
        for T, tst in reversed(seen):
            j = self.join(T, tst, S, st, cur)
            if j is not None: self.apply(st, j); S = self.comps(st); break
        if hist and hist[0][1] < st.nlen and st.gen < st.nlen:
            j = None
            for S0, nlen, snap in reversed(hist):
                if nlen >= st.nlen: continue
                x = self.generalise(S0, snap, S, st, cur, h)
                if x is not None and (j is None or x[3] < j[3]):
                    j = x
                    if not j[3]: break
            if j is not None:
                st.gen = st.nlen
                self.apply(st, j[0]); S = self.comps(st); cur = j[1]
                if j[2]:
                    st.lo = {k: v for k, v in st.lo.items() if j[2] not in k}; st.hi = {k: v for k, v in st.hi.items() if j[2] not in k}
                    st.lo.update(j[4])
                for T, tst in seen:
                    if self.match(T, tst, S, st, cur, h): return False
        snap = st.copy(); seen.append((S, snap)); st.last = dict(st.last); st.last[h] = hist[-47:] + ((S, st.nlen, snap),)
        if len(seen) > 600: raise Unsupported('no convergence at a loop of %s' % self.f.name)
        return True
    def canon(self, st, h, cur):
        """the loop's own name for the cursor; order facts about forgotten positions are closed over and dropped"""
        live = set()
        for v in st.env.values(): syms(v, live)
        for n, v in st.mem.values(): syms(v, live)
        for g in st.g.values():
            for v in g.values():
                if isinstance(v, tuple): syms(v, live)
        live |= {'BEG', 'END'}
        dead = {q for k in list(st.lo) + list(st.hi) for q in k} - live
        for f, up in ((st.lo, min), (st.hi, max)):
            for z in dead:
                for (a, b), v in list(f.items()):
                    if b == z and a != z:
                        for (c, d), w in list(f.items()):
                            if c == z and d != a:
                                if up is max: continue                 # upper bounds are not needed again
                                f[(a, d)] = max(f.get((a, d), v + w), v + w)
                for k in [k for k in f if z in k]: del f[k]
        K = 'K%d' % h; b = cur[1][0][0] if len(cur[1]) == 1 else ''
        if b[:1] == 'K' and b != K and K not in live: self.subst(st, {b: sym(K)})
    def forget(self, st):
        """an accepted position left behind by the cursor: only its name is kept"""
        for sc, g in st.g.items():
            for k in ('lf', 'ff'):
                v = g[k]; n = k.upper()
                if not isinstance(v, tuple) or v == g['cur'] or v == sym(n) or not v[1]: continue
                ids = [i for i, x in st.env.items() if x == v and i not in self.used and not isinstance(i, tuple)]
                if not ids: continue
                for i, x in st.env.items():
                    if n in syms(x, set()): st.env[i] = TOP
                for a, (z, x) in st.mem.items():
                    if n in syms(x, set()): st.mem[a] = (z, TOP)
                for f in (st.lo, st.hi):
                    for q in [q for q in f if n in q]: del f[q]
                for o in ('lf', 'ff'):
                    if o != k and isinstance(g[o], tuple) and n in syms(g[o], set()): g[o] = '?'
                for i in ids: st.env[i] = sym(n)
                for a, (z, x) in st.mem.items():
                    if x == v: st.mem[a] = (z, sym(n))
                g[k] = sym(n)
    def sig(self, st):
        return tuple((g['tag'], g['fin'], g['dead'], g['bm'], g['em'], g['n']) for g in st.g.values())
    def apply(self, st, comps):
        for k, v in comps.items():
            if k[0] == 'e': st.env[k[1]] = v
            elif k[0] == 'm': st.mem[k[1]] = v
            else: st.g[k[1]][k[2]] = v
    def tcur(self, T, tst):
        g = next(iter(tst.g.values()), None)
        return g['cur'] if g else self.BEG
    def match(self, T, tst, S, st, cur, h):
        if T.keys() != S.keys(): return False
        tc = self.tcur(T, tst); m = {}
        if len(tc[1]) == 1 and tc[1][0][1] == 1 and tc[1][0][0][0] == 'K': m[tc[1][0][0]] = lc(cur, -sg(tc[2]))
        for k, t in T.items():
            s = S[k]
            if k[0] == 'm':
                if t[0] != s[0]: return False
                t, s = t[1], s[1]
            if isinstance(t, frozenset):
                if t <= s: continue
                return False
            if isinstance(t, tuple):
                if t == TOP: continue
                if not isinstance(s, tuple): return False
                if t[0] == 'L':                            # remaining loop symbols are bound by the first value built on them
                    fr = [x for x, c in t[1] if x[0] == 'K' and x not in m]
                    if fr and (len(fr) > 1 or s[0] != 'L'): return False
                    if fr:
                        c = dict(t[1])[fr[0]]; rest = ladd(t, L(0)); rest = ('L', tuple(z for z in t[1] if z[0] != fr[0]), t[2])
                        if c not in (1, W): return False
                        v = ladd(s, vsub(rest, m) if m else rest, -1)
                        m[fr[0]] = v if c == 1 else lscale(v, W)
                if m: t = vsub(t, m)
            if t != s: return False
        for k, lo in tst.lo.items():
            d = ladd(sym(k[0]), sym(k[1]), -1)
            if m: d = vsub(d, m)
            iv = self.interval(st, d)
            if iv is None or iv[0] < lo: return False
        for k, hi in tst.hi.items():
            d = ladd(sym(k[0]), sym(k[1]), -1)
            if m: d = vsub(d, m)
            iv = self.interval(st, d)
            if iv is None or iv[1] > hi: return False
        return True
    def lfname(self, T, S):
        """ghost positions that differ between the two states"""
        out = []
        for k in T:
            if k[0] == 'g' and k[2] in ('lf', 'ff') and isinstance(T[k], (tuple, type(None))) and isinstance(S[k], (tuple, type(None))):
                out.append((k, T[k] or L(0), S[k] or L(0), sym('%s' % k[2].upper())))
        return out
    def join(self, T, tst, S, st, cur):
        """states at the same cursor that differ only in where the last accepted position was"""
        if T.keys() != S.keys() or self.tcur(T, tst) != cur or tst.lo != st.lo or tst.hi != st.hi: return None
        names = self.lfname(T, S); out = {}
        for k, t in T.items():
            s = S[k]
            if t == s or t == TOP: continue
            if k[0] == 'm' and t[0] == s[0]: t, s, n = t[1], s[1], t[0]
            else: n = None
            t = t or L(0); s = s or L(0)
            for kk, a, b, nm in names:
                if t == a and s == b: out[k] = (n, nm) if n else nm; break
            else: return None
        return out or None
    def generalise(self, T, tst, S, st, cur, h):
        if T.keys() != S.keys(): return None
        tc = self.tcur(T, tst); names = self.lfname(T, S)
        same = tc == cur; K = 'K%d' % h; r = sg(cur[2]) % self.ALIGN
        if not same:                                       # an older value of this loop's own symbol may still be in use
            held = set()
            for k, t in T.items():
                v = t[1] if k[0] == 'm' else t
                if t == S[k] and isinstance(v, tuple): syms(v, held)
            while K in held: K += "'"
        if not same and (sg(tc[2]) - sg(cur[2])) % self.ALIGN: return None
        kc = lc(sym(K), r); lost = 0; low = {}
        if not same:
            bases = set()
            for v in list(S.values()) + list(T.values()):
                if isinstance(v, tuple) and v and isinstance(v[0], int): v = v[1]
                if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in 'LBVQM': syms(v, bases)
            for x in bases | {'BEG', 'END'}:
                if not (x in ('BEG', 'END') or x[0] == 'K') or x == K: continue
                key = ('END', K) if x == 'END' else (K, x)
                if self.dir < 0: key = (key[1], key[0])
                d = lambda c: ladd(lc(c, -r), sym(x), -1) if key[0] == K else ladd(sym(x), lc(c, -r), -1)
                ivs = [self.interval(z, d(c)) for z, c in ((tst, tc), (st, cur))]
                if all(ivs) and (x in ('BEG', 'END') or min(iv[0] for iv in ivs) >= 0):
                    v = -((-min(iv[0] for iv in ivs)) // self.ALIGN) * self.ALIGN
                    if v > 0 or x not in ('BEG', 'END'): low[key] = v
        out = {}
        for k, t in T.items():
            s = S[k]
            if k[0] == 'm':
                if t[0] != s[0]: return None
                n = t[0]; t, s = t[1], s[1]
            else: n = None
            v = None
            if t == s:
                v = s
                if not same and isinstance(v, tuple) and K in syms(v, set()): v = TOP if k[0] != 'g' else '?'
            else:
                if k[0] == 'g' and k[2] == 'hf': out[k] = t & s; continue
                if k[0] == 'g' and k[2] not in ('cur', 'lf', 'ff'): return None
                a = t if t is not None else L(0); b = s if s is not None else L(0)
                if not isinstance(a, tuple) or not isinstance(b, tuple): return None
                if not same:
                    x = self.rel(a, tc, kc); y = self.rel(b, cur, kc)
                    if x is not None and x == y: v = x
                    elif const(a) is not None and const(b) is not None and tc[1] == cur[1] and k[0] != 'g' and (b[2] - a[2]) & W in ((cur[2] - tc[2]) & W, (tc[2] - cur[2]) & W):
                        up = (b[2] - a[2]) & W == (cur[2] - tc[2]) & W
                        v = ladd(b, ladd(kc, cur, -1), 1 if up else -1)
                if v is None:
                    for kk, p, q, nm in names:
                        if a == p and b == q: v = nm; break
                if v is None:
                    if a[0] == 'L' and b[0] == 'L' and not a[1] and not b[1] and (k[0] == 'g' or True) and not same and a[2] < 4 and b[2] < 4: return None
                    if a[0] in 'SA' or b[0] in 'SA': return None
                    lag = k[0] == 'e' and self.istext(a) and self.istext(b) and k[1] in self.used
                    if same and not lag: return None
                    v = sym('LOST') if lag else TOP if k[0] != 'g' else '?'; lost += 1
            out[k] = (n, v) if n is not None else v
        return out, (cur if same else kc), (None if same else K), lost, low
    def rel(self, v, cur, kc):
        """v written relative to the cursor"""
        if v[0] == 'L':
            if not v[1]: return v
            base = cur[1]
            for s, c in v[1]:
                if (s, 1) == (base[0][0] if base else None, 1) and c in (1, W):
                    return ladd(v, ladd(kc, cur, -1), 1 if c == 1 else -1)
            return v
        if v[0] in ('B', 'V', 'Q', 'M'):
            out = []
            for x in v[1:]:
                if isinstance(x, tuple):
                    x = self.rel(x, cur, kc)
                out.append(x)
            return (v[0],) + tuple(out)
        return v

def liveness(f):
    n = len(f.blocks); use = [set() for _ in range(n)]; de = [set() for _ in range(n)]; phiuse = {}
    def ids(o, out):
        if isinstance(o, list):
            if len(o) >= 2 and o[0] == 'i' and isinstance(o[1], int): out.add(o[1])
            else:
                for x in o: ids(x, out)
    for b, ins in enumerate(f.blocks):
        for i in ins:
            if i['o'] == 'phi':
                for v, p in i['in']:
                    s = set(); ids(v, s); phiuse.setdefault((p, b), set()).update(s)
            else:
                s = set()
                ids(i.get('a', []), s)
                for v, k in i.get('v', []): ids(v, s)
                ids(i.get('fp', []) or [], s)
                use[b] |= s - de[b]
            de[b].add(i['i'])
    live = [set() for _ in range(n)]; ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in f.succ(b):
                o |= live[s] | phiuse.get((b, s), set())
                # values defined by phis of s are not live into b
                o -= {i['i'] for i in f.blocks[s] if i['o'] == 'phi'} - phiuse.get((b, s), set())
            nw = use[b] | (o - de[b])
            nw |= {i['i'] for i in f.blocks[b] if i['o'] == 'phi'} & (use[b] | o)
            if nw != live[b]: live[b] = nw; ch = True
    return live

def consumed(f):
    """values that reach an address, a comparison or a difference"""
    need = set(); defs = {}
    def ids(o):
        if isinstance(o, list):
            if len(o) >= 2 and o[0] == 'i' and isinstance(o[1], int): yield o[1]
            else:
                for x in o: yield from ids(x)
    for b, i in f.instrs():
        defs[i['i']] = i; a = i.get('a', [])
        if i['o'] == 'load': need.update(ids(a[0]))
        elif i['o'] == 'store': need.update(ids(a[-1]))
        elif i['o'] == 'icmp':
            if not any(x[0] in ('n', 'c') for x in a if isinstance(x, list)): need.update(ids(a))
        elif i['o'] in ('sub', 'call', 'switch', 'and', 'or', 'xor', 'shl', 'lshr'): need.update(ids(a))
    work = list(need)
    while work:
        i = defs.get(work.pop())
        if not i or i['o'] in ('load', 'call'): continue
        src = list(ids([v for v, p in i['in']])) if i['o'] == 'phi' else list(ids(i.get('a', []))) + list(ids([v for v, k in i.get('v', [])]))
        for x in src:
            if x not in need: need.add(x); work.append(x)
    return need
