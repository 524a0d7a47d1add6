"""Canonical value numbers: linear forms (mod 2^64) over interned atoms."""
M64 = (1 << 64) - 1
_atoms = []; _ids = {}

def atom(*t):
    i = _ids.get(t)
    if i is None:
        i = len(_atoms); _ids[t] = i; _atoms.append(t)
    return i
def atom_of(i): return _atoms[i]

class Lin:
    __slots__ = ('c', 't', '_h')
    def __init__(self, c, t):
        self.c = c & M64; self.t = t; self._h = hash((self.c, t))
    def __eq__(self, o): return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t
    def __ne__(self, o): return not self == o
    def __hash__(self): return self._h
    def __add__(self, o):
        o = lin(o)
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for m, k in o.t:
            v = (d.get(m, 0) + k) & M64
            if v: d[m] = v
            else: d.pop(m, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    def __neg__(self): return self.scale(-1)
    def __sub__(self, o): return self + (-lin(o))
    def scale(self, k):
        k &= M64
        if k == 0: return ZERO
        if k == 1: return self
        d = []
        for m, v in self.t:
            w = v * k & M64
            if w: d.append((m, w))
        return Lin(self.c * k, tuple(d))
    def __mul__(self, o):
        o = lin(o)
        if not o.t: return self.scale(o.c)
        if not self.t: return o.scale(self.c)
        d = {}
        for m1, k1 in self.t + (((), self.c),):
            if not k1: continue
            for m2, k2 in o.t + (((), o.c),):
                if not k2: continue
                m = tuple(sorted(m1 + m2)); d[m] = (d.get(m, 0) + k1 * k2) & M64
        c = d.pop((), 0)
        return Lin(c, tuple(sorted((m, k) for m, k in d.items() if k)))
    @property
    def const(self): return self.c if not self.t else None
    @property
    def sconst(self):
        if self.t: return None
        return self.c - (1 << 64) if self.c >> 63 else self.c
    def single(self):
        """the atom id if this is exactly one atom, else None"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1:
            return self.t[0][0][0]
        return None
    def atoms(self):
        for m, _ in self.t:
            for a in m: yield a
    def __repr__(self): return show(self)

def lin(x):
    if isinstance(x, Lin): return x
    return Lin(x, ())
ZERO = Lin(0, ()); ONE = Lin(1, ())
def A(*t): return Lin(0, (((atom(*t),), 1),))
def Aid(i): return Lin(0, (((i,), 1),))

def show_atom(i, d=0):
    t = _atoms[i]
    if d > 6: return '..'
    def s(x):
        if isinstance(x, Lin): return show(x, d + 1)
        if isinstance(x, tuple): return '(' + ','.join(s(y) for y in x) + ')'
        return str(x)
    k = t[0]
    if k == 'arg': return 'arg%d' % t[1]
    if k == 'ld': return '[%s]%d%s' % (s(t[2]), t[3], "'%d" % t[1] if t[1] else '')
    if k == 'ad': return 'align%d(%s)' % (t[1], s(t[2]))
    if k == 'w': return 'u%d(%s)' % (t[1], s(t[2]))
    return k + '<' + ','.join(s(x) for x in t[1:]) + '>'
def show(l, d=0):
    p = []
    for m, k in l.t:
        ks = k - (1 << 64) if k >> 63 else k
        n = '*'.join(show_atom(a, d) for a in m)
        p.append(('' if ks == 1 else '-' if ks == -1 else '%d*' % ks) + n)
    c = l.c - (1 << 64) if l.c >> 63 else l.c
    if c or not p: p.append(str(c))
    return ' + '.join(p).replace('+ -', '- ')

def width(i):
    """bits of an atom's unsigned value"""
    t = _atoms[i]
    if t[0] == 'ld': return t[3] * 8 if t[3] <= 8 else 64
    if t[0] == 'w': return t[1]
    if t[0] == 'ext': return min(64, t[3] * 8)
    if t[0] == 'bool': return 1
    if t[0] == 'ret': return t[2]
    if t[0] == 'argw': return t[2]
    if t[0] == "in": return min(64, t[3] * 8)
    if t[0] == 'bin': return t[2]
    if t[0] == 'phi' or t[0] == 'hv': return t[-1]
    return 64
def mult(i):
    t = _atoms[i]
    if t[0] == 'ad': return t[1]
    if t[0] == 'new': return 16
    if t[0] == 'alloca' or t[0] == 'img': return 8
    return 1

def mk_ad(k, l):
    """align down to a multiple of k"""
    pulled = []; rest = []
    for m, c in l.t:
        f = c
        for a in m: f *= mult(a)
        (pulled if f % k == 0 else rest).append((m, c))
    c = l.c - l.c % k; r = l.c % k
    p = Lin(c, tuple(pulled))
    if not rest: return p
    return p + A('ad', k, Lin(r, tuple(rest)))

def trunc(l, w):
    if w >= 64: return l
    mask = (1 << w) - 1
    if not l.t: return Lin(l.c & mask, ())
    a = l.single()
    if a is not None:
        if width(a) <= w: return l
        t = _atoms[a]
        if t[0] == 'w': return trunc(t[2], w)
        if t[0] == 'ld' and t[3] * 8 > w and w % 8 == 0:   # little-endian low part of a wider load
            return A('ld', t[1], t[2], w // 8)
        if t[0] == 'bin' and t[1] == 'lshr' and t[4].const is not None: 
            b = byte_extract(l, w)
            if b is not None: return b
        if t[0] == 'bin' and t[1] == 'lshr':
            b = byte_extract(l, w)
            if b is not None: return b
    # unwrap nested w atoms of width >= w (valid mod 2^w), reduce coefficients
    out = Lin(l.c & mask, ())
    for m, k in l.t:
        if not (k & mask): continue
        term = Lin(k & mask, ())
        for x in m:
            t = _atoms[x]
            term = term * (t[2] if t[0] == 'w' and t[1] >= w else Aid(x))
        out = out + term
    out = Lin(out.c & mask, tuple((m, k & mask) for m, k in out.t if k & mask))
    if not out.t: return out
    a = out.single()
    if a is not None and width(a) <= w: return out
    return A('w', w, out)

def div_exact(l, k):
    """l / k when every coefficient (as a signed number) is divisible by k"""
    def q(v):
        s = v - (1 << 64) if v >> 63 else v
        return s // k if s % k == 0 else None
    c = q(l.c)
    if c is None: return None
    ts = []
    for m, v in l.t:
        x = q(v)
        if x is None:
            # fold a multiple held by the atoms themselves: not representable, give up
            return None
        ts.append((m, x & M64))
    return Lin(c, tuple(ts))

def lshr(l, s, w=64):
    s = lin(s)
    if s.const == 0: return l
    if l.const is not None and s.const is not None: return lin((l.c & ((1 << w) - 1)) >> s.c)
    a = l.single()
    if a is not None:
        t = _atoms[a]
        if t[0] == 'bin' and t[1] == 'lshr' and t[2] == w:
            return A('bin', 'lshr', w, t[3], t[4] + s)
    return A('bin', 'lshr', w, l, s)
def byte_extract(l, w):
    """low w bits of lshr(load N bytes at p, 8*k) == load of w/8 bytes at p+k (little endian)"""
    a = l.single()
    if a is None or w % 8: return None
    t = _atoms[a]
    base, sh = (t[3], t[4]) if t[0] == 'bin' and t[1] == 'lshr' else (l, ZERO)
    b = base.single()
    if b is None: return None
    tb = _atoms[b]
    if tb[0] != 'ld': return None
    off = div_exact(sh, 8)
    if off is None: return None
    return A('ld', tb[1], tb[2] + off, w // 8)

def binop(op, w, a, b):
    mask = (1 << w) - 1
    if op in ('add', 'sub', 'mul'):
        r = a + b if op == 'add' else a - b if op == 'sub' else a * b
        return trunc(r, w) if w < 64 else r
    ca, cb = a.const, b.const
    if ca is not None and cb is not None:
        def sg(x): return x - (1 << w) if x >> (w - 1) else x
        try:
            r = {'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb}.get(op)
            if r is None:
                if op == 'shl': r = ca << cb if cb < w else 0
                elif op == 'lshr': r = (ca & mask) >> cb
                elif op == 'ashr': r = sg(ca & mask) >> cb
                elif op == 'udiv': r = (ca & mask) // cb
                elif op == 'urem': r = (ca & mask) % cb
                elif op == 'sdiv': x, y = sg(ca & mask), sg(cb & mask); r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                elif op == 'srem': x, y = sg(ca & mask), sg(cb & mask); r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            if r is not None: return lin(r & mask)
        except ZeroDivisionError: pass
    if op == 'shl' and cb is not None: return trunc(a.scale(1 << cb), w)
    if op == 'and':
        if ca is not None: a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            if cb == mask: return a
            if cb == 0: return ZERO
            inv = (~cb) & mask
            if (inv & (inv + 1)) == 0 and inv < 64: return trunc(mk_ad(inv + 1, a), w) if w < 64 else mk_ad(inv + 1, a)
            if (cb & (cb + 1)) == 0:
                n = cb.bit_length()
                x = a.single()
                if x is not None and width(x) <= n: return a
                if n in (8, 16, 32):
                    r = byte_extract(a, n)
                    if r is not None: return r
                    return trunc(a, n)
                if cb < 16:
                    r = a - mk_ad(cb + 1, a)
                    return trunc(r, w) if w < 64 else r
        if a == b: return a
        if repr(b) < repr(a): a, b = b, a
        return A('bin', 'and', w, a, b)
    if op == 'or':
        if ca == 0: return b
        if cb == 0: return a
        if a == b: return a
        if repr(b) < repr(a): a, b = b, a
        return A('bin', 'or', w, a, b)
    if op == 'xor':
        if ca == 0: return b
        if cb == 0: return a
        if a == b: return ZERO
        if repr(b) < repr(a): a, b = b, a
        return A('bin', 'xor', w, a, b)
    if op == 'lshr': return lshr(a, b, w)
    if op == 'udiv' and cb is None and w == 64:
        # index * size / size
        for i in a.atoms():
            if _atoms[i][0] == 'bin' and _atoms[i][1] == 'udiv' and Aid(i) * b == a: return Aid(i)
    if op in ('sdiv', 'udiv', 'ashr') and cb is not None and w == 64:
        k = (1 << cb) if op == 'ashr' else cb
        if k and k < (1 << 32):
            q = div_exact(a, k)
            if q is not None: return q
            if op == 'ashr': op = 'sdiv'; b = lin(k)
    return A('bin', op, w, a, b)

def sext(l, w1, w2):
    c = l.const
    if c is not None:
        c &= (1 << w1) - 1
        if c >> (w1 - 1): c -= 1 << w1
        return lin(c & ((1 << w2) - 1) if w2 < 64 else c)
    a = l.single()
    if a is not None and width(a) < w1: return l
    return A('sext', w1, w2, l)

# conditions: (pred, Lin, Lin|None, negated) ; True/False when decided
def cond_not(c):
    if c is True: return False
    if c is False: return True
    return (c[0], c[1], c[2], not c[3])
def cond_cmp(p, a, b, w=64):
    """canonical condition for an integer comparison"""
    if p == 'ne': return cond_not(cond_cmp('eq', a, b, w))
    if p == 'eq':
        # bool compared with 0/1
        for x, y in ((a, b), (b, a)):
            s = x.single()
            if s is not None and y.const in (0, 1) and _atoms[s][0] == 'bool':
                c = _atoms[s][1]
                return c if y.const == 1 else cond_not(c)
        d = a - b
        if w == 1 and d.const is None: d = trunc(d, 1)
        if d.const is not None: return (d.c & ((1 << w) - 1)) == 0
        for m, k in d.t:
            # being aligned: rounding up changes nothing exactly when rounding down changes nothing
            if len(m) == 1 and _atoms[m[0]][0] == 'ad' and k in (1, (1 << 64) - 1) and w == 64:
                q = _atoms[m[0]][1]; x = Aid(m[0]) - (d if k == 1 else -d); y = _atoms[m[0]][2]
                if (y - x).const == q - 1: d = (x - mk_ad(q, x)) if k != 1 else (mk_ad(q, x) - x)
                if d.const is not None: return d.c == 0
        n = -d
        # sign-normalise
        if repr(n) < repr(d): d = n
        return ('eq', d, w, False)
    if p in ('ugt', 'sgt'): return cond_cmp(p[0] + 'lt', b, a, w)
    if p in ('uge', 'sge'): return cond_not(cond_cmp(p[0] + 'lt', a, b, w))
    if p in ('ule', 'sle'): return cond_not(cond_cmp(p[0] + 'lt', b, a, w))
    if a == b: return False
    if a.const is not None and b.const is not None:
        x, y = a.c & ((1 << w) - 1), b.c & ((1 << w) - 1)
        if p == 'slt':
            x = x - (1 << w) if x >> (w - 1) else x; y = y - (1 << w) if y >> (w - 1) else y
        return x < y
    if p == 'ult' and b.const == 0: return False
    if p == 'ult' and b.const == 1: return cond_cmp('eq', a, ZERO, w)
    if p == 'ult' and a.const == 0: return cond_not(cond_cmp('eq', b, ZERO, w))
    return (p, a, b, False)
def cond_val(c):
    if c is True: return ONE
    if c is False: return ZERO
    if c[0] == 'eq' and c[2] == 1 and c[3]:
        # a stored bool is 0 or 1: its low bit is its value
        for x in (c[1], -c[1], trunc(-c[1], 1)):
            s = x.single()
            if s is None: continue
            t = _atoms[s]
            if t[0] == 'w' and t[1] == 1:
                for y in (t[2], -t[2]):
                    i = y.single()
                    if i is not None and width(i) == 8 and _atoms[i][0] in ('ld', 'in'): return y
    return A('bool', c)
def val_cond(v):
    if v.const is not None: return bool(v.c & 1)
    s = v.single()
    if s is not None and _atoms[s][0] == 'bool': return _atoms[s][1]
    return cond_not(cond_cmp('eq', v, ZERO, 1))
def show_cond(c):
    if c is True or c is False: return str(c)
    p, a, b, n = c
    if p == 'eq': s = '%s %s 0' % (show(a), '!=' if n else '==')
    elif p == 'ult' or p == 'slt': s = '%s %s%s %s' % (show(a), '>=' if n else '<', 's' if p[0] == 's' else '', show(b))
    else: s = ('!' if n else '') + str((p, a, b))
    return s
