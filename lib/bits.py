"""Abstract interpretation with values known bit by bit.

An integer is a tuple of bits, lowest first; each bit is 0, 1, a named input bit ('b', name, i), its negation
('~', name, i), or None (nothing known).  A counter is ('X', name, k): an uninterpreted number plus a constant.
Pointers are ('P', base, offset) with offset None when unknown.  States reaching the same block with the same
live values are merged, so loops and long chains of conditions converge; an undecided branch is followed both ways.
"""
import re
ELEM = re.compile(r'\[-?\d+\*[^\[\]]*\]$')          # an element of an array at an unknown index
class Unsupported(Exception): pass
TOPW = {}
def top(w): return TOPW.setdefault(w, (None,) * w)
def const(v, w): return tuple((v >> i) & 1 for i in range(w))
def named(name, w, n=None, at=0): return tuple(('b', name, at + i) if n is None or i < n else 0 for i in range(w))
def isbits(v): return isinstance(v, tuple) and (not v or not isinstance(v[0], str))
def ival(v):
    if not isbits(v) or any(b != 0 and b != 1 for b in v): return None
    return sum(b << i for i, b in enumerate(v))
def sval(v):
    n = ival(v)
    return None if n is None else n - (1 << len(v)) if v and v[-1] else n
def neg(b):
    if b is None: return None
    if b in (0, 1): return 1 - b
    return ('~' if b[0] == 'b' else 'b',) + b[1:]
def b_and(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    if a == b: return a
    if a is not None and a == neg(b): return 0
    return None
def b_or(a, b): 
    r = b_and(neg(a) if a is not None else None, neg(b) if b is not None else None)
    if a == 1 or b == 1: return 1
    return neg(r) if r is not None else None
def b_xor(a, b):
    if a == 0: return b
    if b == 0: return a
    if a == 1: return neg(b)
    if b == 1: return neg(a)
    if a is None or b is None: return None
    if a == b: return 0
    if a == neg(b): return 1
    return None
def add(x, y, c=0):
    out = []
    for a, b in zip(x, y):
        s = b_xor(b_xor(a, b), c)
        t = sorted((z for z in (a, b, c)), key=lambda z: (z is None, str(z)))
        ones = t.count(1); zeros = t.count(0); rest = [z for z in t if z not in (0, 1)]
        if ones >= 2: c = 1
        elif zeros >= 2: c = 0
        elif len(rest) == 1: c = rest[0]                      # one 0 and one 1
        elif len(rest) == 2 and rest[0] is not None and rest[0] == rest[1]: c = rest[0]
        elif len(rest) == 2 and rest[0] is not None and rest[0] == neg(rest[1]): c = ones
        else: c = None
        out.append(s)
    return tuple(out)
def lo(v): return sum(1 << i for i, b in enumerate(v) if b == 1)
def hi(v): return sum(1 << i for i, b in enumerate(v) if b != 0)
SW = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}

def idxname(x):
    '''the input an index comes from, or ?'''
    if x is None: return '?'
    if not isbits(x): return x[1] if x[0] == 'X' and x[2] == 0 else '?'
    while x and x[-1] == 0: x = x[:-1]
    if x and x[0] is not None and x[0] not in (0, 1) and x == named(x[0][1], len(x)): return x[0][1]
    return '?'
class St:
    __slots__ = ('env', 'mem', 'facts', 'log')
    def __init__(self, env=None, mem=None, facts=frozenset(), log=()):
        self.env = env or {}; self.mem = mem if mem is not None else {}; self.facts = facts; self.log = log
    def copy(self): return St(dict(self.env), self.mem.copy(), self.facts, self.log)

class Bits:
    stop_on_need = False; nounwind = False; merge = True
    """params: list of values; load(run, st, ptr, size, w) -> value or None (default memory); store/call hooks likewise;
    ret(run, st, value, ins) is called at each return.  ignore(base, off, size): stores not worth tracking."""
    def __init__(self, m, fn, params, load=None, store=None, call=None, ret=None, ignore=None, nonzero=(), limit=60000):
        self.m, self.f, self.params = m, fn, params
        self.hload, self.hstore, self.hcall, self.ret, self.ignore = load, store, call, ret, ignore
        self.nonzero = set(nonzero); self.limit = limit
        self.steps = 0; self.need = None; self.rets = 0; self.blocks = set(); self.throws = 0
    def live(self):
        f = self.f; n = len(f.blocks)
        use = [set() for _ in range(n)]; de = [set() for _ in range(n)]; ph = [dict() for _ in range(n)]
        def ops(o, s):
            if o[0] == 'i': s.add(o[1])
            elif o[0] == 'ge': ops(o[1], s)
        for b in range(n):
            for i in f.blocks[b]:
                s = set()
                if i['o'] == 'phi':
                    for v, fb in i['in']:
                        t = set(); ops(v, t); ph[b].setdefault(fb, set()).update(t)
                else:
                    for a in i.get('a', []): ops(a, s)
                    for a, _ in i.get('v', []) or []: ops(a, s)
                    if 'fp' in i: ops(i['fp'], s)
                use[b] |= s - de[b]; de[b].add(i['i'])
        li = [set() for _ in range(n)]; ch = True
        while ch:
            ch = False
            for b in reversed(range(n)):
                o = set()
                for s in f.succ(b): o |= li[s] | ph[s].get(b, set())
                v = use[b] | (o - de[b])
                if v != li[b]: li[b] = v; ch = True
        return li
    def op(self, st, o, w=None):
        k = o[0]
        if k == 'i': return st.env.get(o[1])
        if k == 'p': return self.params[o[1]]
        if k == 'c': return const(o[1] & ((1 << (w or 64)) - 1), w or 64)
        if k == 'C': return const(int(o[1]), w or 64)
        if k == 'n': return const(0, 64)
        if k == 'g': return ('P', '@' + o[1], 0)
        if k == 'ge':
            b = self.op(st, o[1])
            return ('P', b[1], b[2] + o[2]) if b and b[0] == 'P' and b[2] is not None else b
        return None
    def fix(self, v, w):
        if w and isbits(v) and v and len(v) != w: return v[:w] + (0,) * (w - len(v))
        return v
    # ---- memory
    def rd(self, st, p, size, w):
        if p is None or p[0] != 'P':
            if p is not None and isbits(p) and ival(p) is not None: raise Unsupported('read through a constant address')
            return None
        base, off = p[1], p[2]
        if off is not None and not ELEM.search(base):
            e = st.mem.get((base, off))
            if e and e[0] == size: return self.fix(e[1], w)
            bits = []
            for k in range(size):
                x = self.byte(st, base, off + k)
                if x is None: bits = None; break
                bits += x
            if bits is not None: return tuple(bits)[:w]
        if self.hload:
            v = self.hload(self, st, p, size, w)
            if v is not None: return v
        return top(w) if w else None
    def byte(self, st, base, off):
        for d in range(0, 64):
            e = st.mem.get((base, off - d))
            if e and e[0] > d:
                v = e[1]
                if v is None or not isbits(v): return None
                return v[8 * d:8 * d + 8]
        return None
    def wr(self, st, p, size, v, ins):
        if self.hstore and self.hstore(self, st, p, size, v, ins): return
        if p is None or p[0] != 'P': self.unknown(st, None, ins); return
        base, off = p[1], p[2]
        if off is None or ELEM.search(base):
            while ELEM.search(base): base = ELEM.sub('', base)
            self.unknown(st, base, ins); return
        if self.ignore and self.ignore(base, off, size): return
        self.clobber(st, base, off, size)
        st.mem[(base, off)] = (size, v)
    def clobber(self, st, base, off, size):
        for (b, o) in [k for k in st.mem if k[0] == base]:
            s, v = st.mem[(b, o)]
            if o < off + size and off < o + s:
                del st.mem[(b, o)]
                for k in range(s):
                    if not off <= o + k < off + size:
                        st.mem[(b, o + k)] = (1, v[8 * k:8 * k + 8] if v is not None and isbits(v) else top(8))
    def unknown(self, st, base, ins):
        for k in list(st.mem):
            if base is None and not k[0].startswith('%') or k[0] == base: st.mem[k] = (st.mem[k][0], top(8 * st.mem[k][0]))
        if base is None or not base.startswith('%'): st.log += (('?', base),)
    # ---- comparison
    def cmp(self, st, p, a, b, w):
        """True, False, a bit, or None"""
        if p in SW: p, a, b = SW[p], b, a
        if p == 'ne':
            r = self.cmp(st, 'eq', a, b, w)
            return r if r is None else (not r if isinstance(r, bool) else neg(r))
        if a is None or b is None: return None
        if a[0] == 'P' if a else False:
            if b and b[0] == 'P' and a[1] == b[1] and a[2] is not None and b[2] is not None:
                return {'eq': a[2] == b[2], 'ult': a[2] < b[2], 'ule': a[2] <= b[2]}.get(p)
            if p == 'eq' and isbits(b) and ival(b) == 0: return False
            if p == 'eq' and b and b[0] == 'P' and a[1] != b[1]: return False if (a[1][0] == '%' or b[1][0] == '%') else None
            return None
        if b and b[0] == 'P': return self.cmp(st, p, b, a, w) if p == 'eq' else None
        if a and a[0] == 'X' or b and b[0] == 'X': return self.xcmp(st, p, a, b)
        if not isbits(a) or not isbits(b): return None
        if p == 'eq':
            d = [b_xor(x, y) for x, y in zip(a, b)]
            if any(x == 1 for x in d): return False
            if all(x == 0 for x in d): return True
            r = [x for x in d if x != 0]
            if len(set(r)) == 1 and r[0] is not None: return neg(r[0])
            return None
        if p in ('slt', 'sle'):
            a = a[:-1] + (neg(a[-1]),); b = b[:-1] + (neg(b[-1]),)
            p = 'u' + p[1:]
        if p == 'ult':
            if hi(a) < lo(b): return True
            if lo(a) >= hi(b): return False
        if p == 'ule':
            if hi(a) <= lo(b): return True
            if lo(a) > hi(b): return False
        # same above, decided by the first differing pair
        i = len(a) - 1
        while i >= 0 and a[i] is not None and a[i] == b[i]: i -= 1
        if i < 0: return p == 'ule'
        if a[i] == 0 and b[i] == 1: return True
        if a[i] == 1 and b[i] == 0: return False
        return None
    def xcmp(self, st, p, a, b):
        if a[0] == 'X' and b[0] == 'X' and a[1] == b[1]:
            return {'eq': a[2] == b[2], 'ult': a[2] < b[2], 'ule': a[2] <= b[2]}.get(p)
        if b[0] != 'X' and isbits(b) and ival(b) is not None and a[0] == 'X':
            n = ival(b); l = a[2] + (1 if a[1] in self.nonzero else 0)
            if p == 'eq' and n < l: return False
            if p == 'ult' and n <= l: return False
            if p == 'ule' and n < l: return False
        if a[0] != 'X' and isbits(a) and ival(a) is not None and b[0] == 'X':
            n = ival(a); l = b[2] + (1 if b[1] in self.nonzero else 0)
            if p == 'eq' and n < l: return False
            if p == 'ult' and n < l: return True
            if p == 'ule' and n <= l: return True
        for q, v in ((p, True), (NEG[p], False)):
            if (q, a, b) in st.facts: return v
            if (SW2.get(q), b, a) in st.facts: return v
        if p == 'ule' and (('ult', a, b) in st.facts or ('ugt', b, a) in st.facts): return True
        return None
    # ---- run
    def run(self, st=None):
        st = st or St()
        self.li = self.live(); seen = set(); work = [(0, None, st)]
        while work:
            if self.need and self.stop_on_need: return
            b, prev, st = work.pop()
            f = self.f; blk = f.blocks[b]; self.blocks.add(b)
            if prev is not None:
                new = {}
                for i in blk:
                    if i['o'] != 'phi': break
                    v = next((x for x, fb in i['in'] if fb == prev), None)
                    new[i['i']] = self.fix(self.op(st, v, i.get('w')), i.get('w'))
                st.env = {k: v for k, v in st.env.items() if k in self.li[b]}; st.env.update(new)
            if not self.merge:
                self.steps += 1
                if self.steps > self.limit: raise Unsupported('no end in sight')
                j = 0
                while j < len(blk) and blk[j]['o'] == 'phi': j += 1
                self.block(st, b, j, work); continue
            key = (b, tuple(sorted(st.env.items(), key=lambda x: x[0])), tuple(sorted(st.mem.items())) if False else frozenset(st.mem.items()), st.facts, st.log)
            if key in seen: continue
            seen.add(key); self.steps += 1
            if self.steps > self.limit: raise Unsupported('no fixed point')
            j = 0
            while j < len(blk) and blk[j]['o'] == 'phi': j += 1
            self.block(st, b, j, work)
    def block(self, st, b, j, work):
        blk = self.f.blocks[b]
        while j < len(blk):
            i = blk[j]; o = i['o']; w = i.get('w'); a = i.get('a', [])
            j += 1
            if o == 'br':
                if not a: work.append((i['d'][0], b, st)); return
                c = self.op(st, a[0], 1)
                self.branch(st, a[0], c, lambda s, v: work.append((i['d'][0 if v else 1], b, s)))
                return
            if o == 'switch':
                x = self.op(st, a[0]); n = ival(x) if isbits(x) else None
                if n is not None:
                    work.append((next((d for v, d in i['cs'] if v & ((1 << len(x)) - 1) == n), i['df']), b, st)); return
                for d in set([i['df']] + [d for _, d in i['cs']]): work.append((d, b, st.copy()))
                return
            if o == 'ret':
                self.rets += 1
                if self.ret: self.ret(self, st, self.op(st, a[0], i.get('ow') or 64) if a else None, i)
                return
            if o in ('unreachable', 'resume'): self.throws += 1; return
            if o in ('call', 'invoke'):
                r = self.call(st, i, w)
                if r == 'noreturn': self.throws += 1; return
                if isinstance(r, tuple) and r and r[0] == 'fork':
                    for s, v in r[1]:
                        s.env[i['i']] = v; self.block(s, b, j, work) if o == 'call' else work.append((i['n'], b, s))
                    return
                if w or 't' in i: st.env[i['i']] = self.fix(r, w) if r is not None else (top(w) if w and i['t'] != 'ptr' else None)
                if o == 'invoke':
                    if not i.get('nt') and not self.nounwind: s2 = st.copy(); work.append((i['u'], b, s2))
                    work.append((i['n'], b, st)); return
                continue
            if o == 'select':
                c = self.op(st, a[0], 1)
                if isbits(c) and ival(c) is not None: st.env[i['i']] = self.fix(self.op(st, a[1] if ival(c) else a[2], w), w); continue
                def go(s, v, i=i, j=j): s.env[i['i']] = self.fix(self.op(s, i['a'][1] if v else i['a'][2], i.get('w')), i.get('w')); self.block(s, b, j, work)
                self.branch(st, a[0], c, go)
                return
            self.simple(st, i, o, a, w)
    def branch(self, st, cond, c, go):
        n = ival(c) if c is not None and isbits(c) else None
        if n is not None: go(st, bool(n)); return
        d = self.f.idef.get(cond[1]) if cond[0] == 'i' else None
        if c is not None and isbits(c) and c[0] is not None: self.split(c[0])
        fact = None
        if d is not None and d['o'] == 'icmp':
            x, y = (self.op(st, z, d.get('ow')) for z in d['a'])
            if x is not None and y is not None and (x[0] == 'X' or y[0] == 'X'): fact = (d['p'], x, y)
            elif x is not None and y is not None and isbits(x) and isbits(y): self.hint(x, y)
        for v in (True, False):
            s = st.copy()
            if cond[0] == 'i': s.env[cond[1]] = const(int(v), 1)
            if fact: s.facts = s.facts | {fact if v else (NEG[fact[0]],) + fact[1:]}
            go(s, v)
    def split(self, bit):
        self.need = self.need or bit[1:]
    def hint(self, x, y):
        if self.need: return
        for v in (x, y):
            for bt in reversed(v):
                if bt is not None and bt not in (0, 1): self.need = bt[1:]; return
    def call(self, st, i, w):
        f = i.get('f') or ''; a = i['a']; intr = i.get('intr', '')
        if self.hcall:
            r = self.hcall(self, st, i, w)
            if r is not None: return None if r == 'void' else r
        if intr.startswith('llvm.memset'):
            p = self.op(st, a[0]); n = ival(self.op(st, a[2])); v = self.op(st, a[1], 8)
            if n is None or n > 4096: self.unknown(st, p[1] if p else None, i); return None
            for k in range(n): self.wr(st, ('P', p[1], p[2] + k) if p and p[0] == 'P' and p[2] is not None else p, 1, v, i)
            return None
        if intr.startswith('llvm.memcpy') or intr.startswith('llvm.memmove') or f in ('memcpy', 'memmove'):
            p, q = self.op(st, a[0]), self.op(st, a[1]); n = ival(self.op(st, a[2]))
            if n is None or n > 4096 or not p or not q or p[0] != 'P' or q[0] != 'P' or p[2] is None or q[2] is None: self.unknown(st, p[1] if p and p[0] == 'P' else None, i); return p
            done = 0
            while done < n:
                e = st.mem.get((q[1], q[2] + done))
                if e and e[0] + done <= n: s, v = e
                else: s = 1; v = self.rd(st, ('P', q[1], q[2] + done), 1, 8)
                self.wr(st, ('P', p[1], p[2] + done), s, v, i); done += s
            return p
        if intr in ('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin'):
            x, y = self.op(st, a[0], w), self.op(st, a[1], w); p = 'ult' if intr[5] == 'u' else 'slt'
            c = self.cmp(st, p, x, y, w); mx = intr.endswith('max')
            if c is True or c is False: return (y if mx else x) if c else (x if mx else y)
            if x is None or y is None: return None
            out = []
            for v in (True, False):
                s = st.copy(); s.facts = s.facts | {(p if v else NEG[p], x, y)}
                out.append((s, (y if mx else x) if v else (x if mx else y)))
            return ('fork', out)
        if intr.startswith('llvm.ctlz') or intr.startswith('llvm.bswap') or intr.startswith('llvm.fsh'):
            raise Unsupported('intrinsic ' + intr)
        if intr in ('llvm.assume', 'llvm.dbg.value', 'llvm.stacksave', 'llvm.stackrestore') or intr.startswith('llvm.experimental'): return None
        if i.get('nr') or f in ('__cxa_throw', '__cxa_rethrow', '_Unwind_Resume', '__assert_fail', 'abort'): return 'noreturn'
        if intr: return None
        self.unknown(st, None, i); st.log += (('call', f or '?'),)
        return None
    def simple(self, st, i, o, a, w):
        E = st.env
        if o == 'alloca': E[i['i']] = ('P', '%%%d' % i['i'], 0); return
        if o == 'getelementptr':
            p = self.op(st, a[0])
            if p is None or p[0] != 'P' or i.get('bad'):
                E[i['i']] = None; return
            base, off = p[1], p[2]
            if off is not None:
                off += i['k']
                for v, k in i.get('v') or []:
                    x = self.op(st, v, None); n = sval(x) if x is not None and isbits(x) else None
                    if n is None: base = '%s[%d*%s]' % (base, k, idxname(x))
                    else: off += n * k
            E[i['i']] = ('P', base, off); return
        if o == 'load':
            p = self.op(st, a[0]); v = self.rd(st, p, i['s'], w)
            if i.get('t') == 'ptr' and (v is None or isbits(v) and ival(v) is None):
                v = ('P', '[%s%+d]' % (p[1], p[2]), 0) if p is not None and p[0] == 'P' and p[2] is not None else None
            E[i['i']] = v; return
        if o == 'store':
            v = self.op(st, a[0], 8 * i['s']); self.wr(st, self.op(st, a[1]), i['s'], self.fix(v, 8 * i['s']), i); return
        if o == 'icmp':
            ow = i.get('ow') or 64
            x, y = (self.fix(self.op(st, z, ow), ow) for z in a)
            r = self.cmp(st, i['p'], x, y, ow)
            E[i['i']] = const(int(r), 1) if isinstance(r, bool) else ((r,) if r is not None else (None,)); return
        if o in ('zext', 'trunc', 'sext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            ow = i.get('ow') or 64; x = self.op(st, a[0], ow)
            if x is None or not isbits(x):
                E[i['i']] = x if x is not None and (x[0] != 'X' or o in ('zext', 'freeze')) else (top(w) if w else None); return
            x = self.fix(x, ow)
            E[i['i']] = x[:w] if w <= len(x) else x + ((x[-1] if o == 'sext' else 0),) * (w - len(x)); return
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            x, y = (self.fix(self.op(st, z, w), w) for z in a)
            E[i['i']] = self.bin(o, x, y, w); return
        if o == 'extractvalue': E[i['i']] = top(w) if w else None; return
        if o in ('insertvalue', 'landingpad', 'fence'): E[i['i']] = None; return
        E[i['i']] = top(w) if w and i.get('t') != 'ptr' else None
    def bin(self, o, x, y, w):
        if x is None or y is None: return top(w)
        if x[0] == 'P' or y[0] == 'P':
            if o == 'add' and y[0] != 'P' or o == 'sub' and y[0] != 'P':
                n = sval(y) if isbits(y) else None
                if n is None and o == 'add' and isbits(y) and x[0] == 'P' and x[2] is not None: return ('S', x[1], x[2], y)
                return ('P', x[1], None if n is None or x[2] is None else x[2] + (n if o == 'add' else -n))
            if o == 'add' and y[0] == 'P' and x[0] != 'P': return self.bin(o, y, x, w)
            if o == 'sub' and x[0] == 'P' and y[0] == 'P' and x[1] == y[1] and x[2] is not None and y[2] is not None: return const(x[2] - y[2], w)
            return top(w)
        if x[0] == 'X' or y[0] == 'X':
            if o == 'add' and y[0] == 'X' and x[0] != 'X': x, y = y, x
            if o in ('add', 'sub') and isbits(y) and sval(y) is not None and x[0] == 'X':
                n = sval(y) * (1 if o == 'add' else -1)
                return ('X', x[1], x[2] + n) if x[2] + n >= 0 else top(w)
            return top(w)
        if o == 'and': return tuple(map(b_and, x, y))
        if o == 'or': return tuple(map(b_or, x, y))
        if o == 'xor': return tuple(map(b_xor, x, y))
        if o == 'add': return add(x, y)
        if o == 'sub': return add(x, tuple(neg(b) for b in y), 1)
        n = ival(y); m = ival(x)
        if o in ('shl', 'lshr', 'ashr') and n is not None:
            if n >= w: return top(w)
            if o == 'shl': return ((0,) * n + x)[:w]
            return x[n:] + ((x[-1] if o == 'ashr' else 0),) * n
        if o == 'mul':
            if n is None: n, x = m, y
            if n is None: return top(w)
            r = const(0, w)
            for k in range(w):
                if n >> k & 1: r = add(r, ((0,) * k + x)[:w])
            return r
        if n and m is not None and o in ('udiv', 'urem'): return const(m // n if o == 'udiv' else m % n, w)
        if o in ('sdiv', 'srem') and n:
            if x[-1] == 0 and y[-1] == 0: return self.bin('u' + o[1:], x, y, w)
            if m is not None:
                a, b = sval(x), sval(y); q = abs(a) // abs(b); q = -q if (a < 0) != (b < 0) else q
                return const((q if o == 'sdiv' else a - q * b) & ((1 << w) - 1), w)
        if n and not n & (n - 1) and o in ('udiv', 'urem'):
            k = n.bit_length() - 1
            return x[k:] + (0,) * k if o == 'udiv' else x[:k] + (0,) * (w - k)
        return top(w)
SW2 = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
