"""U01: character encodings: UTF-8 writes and reads exactly the standard form; ASCII passes through."""
import re
from common import norm
import bits
from bits import Bits, St, const, ival, top, isbits, named
from ctx import Broken
STR = r'_ZNK?St7__cxx1112basic_string'
STRING = {  # methods of std::string by mangled tail
    'size': r'(4sizeEv|6lengthEv)$', 'data': r'(5beginEv|6cbeginEv|4dataEv|5c_strEv)$', 'end': r'(3endEv|4cendEv)$', 'index': r'(ixEm|2atEm)$',
    'fill': r'C[12]EmcRKS3_$', 'ptrlen': r'C[12]EPKcmRKS3_$', 'empty': r'C[12]E(RKS3_|v)$', 'push': r'(9push_backEc|pLEc)$', 'append_fill': r'6appendEmc$', 'append_ptr': r'6appendEPKcm$',
    'resize_fill': r'6resizeEmc$', 'resize': r'6resizeEm$', 'assign_fill': r'6assignEmc$', 'assign_ptr': r'6assignEPKcm$', 'back': r'4backEv$', 'front': r'5frontEv$', 'reserve': r'7reserveEm$',
    'dtor': r'D[012]Ev$', 'isempty': r'5emptyEv$', 'clear': r'5clearEv$', 'init_range': r'C[12]I(PKc|Pc|PKh|Ph)\S*$'}
class Strings:
    """std::string objects: length in ('<obj>#len', 0), contents in ('<obj>#buf', k)"""
    def __init__(self): self.bad = None
    def obj(self, p): return '%s%+d' % (p[1], p[2]) if p and p[0] == 'P' and p[2] is not None else None
    def length(self, st, o): return ival(st.mem.get((o + '#len', 0), (8, const(0, 64)))[1])
    def setlen(self, st, o, n): st.mem[(o + '#len', 0)] = (8, const(n, 64))
    def put(self, run, st, o, at, bs):
        for k, b in enumerate(bs): st.mem[(o + '#buf', at + k)] = (1, b)
    def call(self, run, st, i, w):
        f = i.get('f') or ''
        if f in ('__cxa_throw', 'abort', '__assert_fail'): run.threw = True; return 'noreturn'
        if 'allocator' in f and not f.startswith(('_ZNSt7__cxx11', '_ZNKSt7__cxx11')): return 'void'
        if not re.match(STR, f): return None
        k = next((k for k, r in STRING.items() if re.search(r, f)), None)
        a = [run.op(st, x) for x in i['a']]; o = self.obj(a[0])
        if k is None or o is None: raise Broken('unmodelled string operation ' + f)
        num = lambda v: ival(v) if v is not None and isbits(v) else None
        chb = lambda v: run.fix(v, 8) if v is not None and isbits(v) else top(8)
        n = self.length(st, o)
        if k == 'size': return const(n, 64)
        if k == 'isempty': return const(int(n == 0), 1)
        if k == 'data' or k == 'front': return ('P', o + '#buf', 0)
        if k == 'end': return ('P', o + '#buf', n)
        if k == 'back': return ('P', o + '#buf', n - 1)
        if k == 'index':
            x = num(a[1])
            if x is None: raise Broken('string indexed by an unknown number')
            return ('P', o + '#buf', x)
        if k in ('dtor', 'reserve'): return 'void'
        if k in ('empty', 'clear'): self.setlen(st, o, 0); return 'void'
        if k in ('push',): self.put(run, st, o, n, [chb(a[1])]); self.setlen(st, o, n + 1); return a[0]
        if k in ('fill', 'assign_fill', 'append_fill', 'resize_fill', 'resize'):
            c = num(a[1])
            if c is None or c > 64: run.need = run.need or self.firstbit(a[1]); c = 0
            at = n if k in ('append_fill',) else 0
            ch = chb(a[2]) if len(a) > 2 and k != 'resize' else const(0, 8)
            if k in ('resize_fill', 'resize'):
                self.put(run, st, o, n, [ch] * max(0, c - n)); self.setlen(st, o, c)
            else: self.put(run, st, o, at, [ch] * c); self.setlen(st, o, at + c)
            return a[0] if k != 'resize' else 'void'
        if k in ('ptrlen', 'append_ptr', 'assign_ptr', 'init_range'):
            c = num(a[2])
            if k == 'init_range': c = a[2][2] - a[1][2] if a[2] and a[2][0] == 'P' and a[1] and a[1][1] == a[2][1] else None
            if c is None or c > 64: raise Broken('string built from an unknown number of bytes')
            at = n if k == 'append_ptr' else 0
            bs = [run.rd(st, ('P', a[1][1], a[1][2] + j), 1, 8) for j in range(c)]
            self.put(run, st, o, at, bs); self.setlen(st, o, at + c); return a[0]
        raise Broken(f)
    def firstbit(self, v):
        return next((b[1:] for b in v or () if b is not None and b not in (0, 1)), None) if v is not None and isbits(v) else None
    def text(self, run, st, o):
        n = self.length(st, o)
        return [st.mem.get((o + '#buf', k), (1, top(8)))[1] for k in range(n)]

def subst(name, w, cube): return tuple(cube.get((name, k), ('b', name, k)) for k in range(w))
def cubes(go, start, limit=6000):
    """runs go(cube) and splits the cube on the bit it asks for, until it asks for none"""
    todo = [dict(start)]; n = 0
    while todo:
        c = todo.pop(); n += 1
        if n > limit: raise Broken('too many cases')
        need = go(c)
        if need:
            nm = need if isinstance(need, tuple) and len(need) == 2 else need[:2]
            if tuple(nm) in c: raise Broken('case split on %s does not decide the branch' % (nm,))
            for v in (0, 1): d = dict(c); d[tuple(nm)] = v; todo.append(d)
    return n
def rng(bs): return bits.lo(bs), bits.hi(bs)
def enc_class(c):
    lo, hi = rng(c)
    ls = [1 if x < 0x80 else 2 if x < 0x800 else 3 if x < 0x10000 else 4 for x in (lo, hi)]
    return ls[0] if ls[0] == ls[1] else None
def encode(c):
    n = enc_class(c)
    if n == 1: return [c[:8]]
    out = [c[6 * k:6 * k + 6] + (0, 1) for k in range(n - 1)]
    top_ = c[6 * (n - 1):6 * (n - 1) + (5 if n == 2 else 4 if n == 3 else 3)]
    out.append(top_ + ((0, 1, 1) if n == 2 else (0, 1, 1, 1) if n == 3 else (0, 1, 1, 1, 1)))
    return out[::-1]
def free(v, cube_name_bits):
    return next((b[1:] for b in reversed(v) if b is not None and b not in (0, 1)), None)
def hexr(v):
    lo, hi = rng(v); return '%X' % lo if lo == hi else '%X..%X' % (lo, hi)
def fn(ctx, m, rx):
    r = [f for f in m.fns.values() if re.search(rx, f.name) and not f.decl]
    ctx.need(len(r) == 1, 'no single function matches ' + rx); return r[0]
def gload(m):
    """constant tables; an index that is not known asks for a case split"""
    def load(run, st, p, size, w):
        if not p[1].startswith('@'): return None
        g = m.globals.get(re.match(r'@([^\[]*)', p[1]).group(1))
        if g is None or not g.get('const'): return None
        if bits.ELEM.search(p[1]) or p[2] is None:
            if run.need is None: run.need = getattr(run, 'idx', None)
            if run.need is None: raise Broken('a constant table is indexed by something unknown')
            return top(w) if w else None
        if g.get('zero'): return const(0, w)
        h = g.get('init')
        if h is None: return None
        by = [h[2 * k:2 * k + 2] for k in range(p[2], p[2] + size)]
        if len(by) < size or any(len(b) < 2 or b == '??' for b in by): raise Broken('a constant table is read outside its bounds') if len(by) < size else Broken('unknown table contents')
        return tuple(b for x in by for b in const(int(x, 16), 8))[:w]
    return load
class R(Bits):
    stop_on_need = True
    def simple(self, st, i, o, a, w):
        if o == 'getelementptr':
            for v, k in i.get('v') or []:
                x = self.op(st, v, None)
                if x is not None and isbits(x) and ival(x) is None: self.idx = free(x, None)
        Bits.simple(self, st, i, o, a, w)

def to_local(ctx, m, name, f, maxc, expect):
    """expect(c bits) -> list of bytes, or None to ask for a split"""
    S = Strings(); seen = []
    def go(cube):
        c = subst('c', 32, cube); outs = []; errs = []
        def ret(run, st, v, ins): outs.append(S.text(run, st, S.obj(('P', 'out', 0))))
        def store(run, st, p, size, v, ins):
            if p and p[0] == 'P' and p[1].endswith('#buf') and p[2] is not None:
                n = S.length(st, p[1][:-4])
                if p[2] < 0 or p[2] + size > n: errs.append('writes byte %d of a string of %d' % (p[2], n))
            return False
        r = R(m, f, [('P', 'out', 0), ('P', 'this', 0), c], call=S.call, ret=ret, store=store, load=gload(m))
        try: r.run()
        except bits.Unsupported as e: raise Broken('%s: %s' % (name, e))
        if r.need: return r.need
        want = expect(c)
        if want is None: return free(c, None)
        bad = None
        if getattr(r, 'threw', 0): bad = 'throws'
        elif not outs: bad = 'does not return'
        for o in outs:
            if len(o) != len(want): bad = 'gives %d bytes instead of %d' % (len(o), len(want))
            elif o != want: bad = 'gives %s instead of %s' % (bytestr(o), bytestr(want))
        if errs: bad = errs[0]
        ctx.decide('encode', not bad, f.loc(), '%s U+%s: %s' % (name, hexr(c), bad or 'the standard %d bytes, bit for bit' % len(want) if want else bad or 'no bytes'))
        return None
    start = {('c', k): 0 for k in range(32) if (maxc >> k) == 0}
    return cubes(go, start)
def bytestr(bs): return ' '.join(''.join('?' if b is None else str(b) if b in (0, 1) else 'x' for b in reversed(x)) for x in bs)

def from_local(ctx, m, name, f, utf8):
    total = 0
    for L in ((1, 2, 3, 4, 5) if utf8 else (0, 1, 2)):
        def go(cube, L=L):
            b = [subst('b%d' % k, 8, cube) for k in range(L)]; outs = []; errs = []
            def load(run, st, p, size, w):
                if p[1] == 'in':
                    if p[2] is None or not 0 <= p[2] or p[2] + size > L: errs.append('reads byte %s of %d' % (p[2], L)); return top(w)
                    return tuple(x for k in range(size) for x in b[p[2] + k])[:w]
                return g(run, st, p, size, w)
            g = gload(m)
            def call(run, st, i, w):
                fnm = i.get('f') or ''
                if fnm == '__cxa_throw': run.threw = True; return 'noreturn'
                if fnm.startswith('__cxa_') or 'Error' in fnm or re.match(STR, fnm) or 'allocator' in fnm: return None if not w and i.get('t') != 'ptr' else ('P', '%exc', 0)
                return None
            def ret(run, st, v, ins): outs.append((run, st, v))
            r = R(m, f, [('P', 'this', 0), ('P', 'pp', 0), ('P', 'in', L)], load=load, call=call, ret=ret)
            try: r.run(St(mem={('pp', 0): (8, ('P', 'in', 0))}))
            except bits.Unsupported as e: raise Broken('%s: %s' % (name, e))
            if r.need: return r.need
            where = '%s of %s in %d byte%s' % (name, bytestr(b) or 'nothing', L, '' if L == 1 else 's')
            ok = accept(b, L) if utf8 else ((b[0][:7] + (0,) if b and b[0][7] == 0 else None), 1) if not b or b[0][7] in (0, 1) else ('split', b[0][7][1:])
            if ok[0] == 'split': return ok[1]
            val, n = ok[0], ok[1]; must = len(ok) < 3
            bad = None
            if errs: bad = errs[0]
            elif val is None:
                if outs: bad = 'accepted although it is malformed'
            else:
                if not outs and must: bad = 'rejected although it is well formed'
                if getattr(r, 'threw', 0) and outs: bad = 'may be accepted or rejected'
                for run, st, v in outs:
                    p = st.mem.get(('pp', 0), (0, None))[1]
                    w = run.fix(val, 32)
                    if v is None or not isbits(v) or v[:32] != w: bad = 'gives the wrong code point'
                    elif p != ('P', 'in', n): bad = 'does not consume exactly %d byte%s' % (n, '' if n == 1 else 's')
            ctx.decide('decode', not bad, f.loc(), '%s: %s' % (where, bad or ('rejected' if val is None else 'decoded bit for bit')))
            return None
        total += cubes(go, {})
    return total
def accept(b, L):
    """(code point bits or None, bytes, 'optional' when either answer is allowed)"""
    x = b[0]
    # lead class, from the top bits
    k = 7
    while k >= 3 and x[k] == 1: k -= 1
    if k >= 3 and x[k] not in (0, 1): return ('split', x[k][1:])
    ones = 7 - k
    if ones == 0: return (x[:7], 1)
    if ones == 1 or ones > 4: return (None, 0)
    n = ones
    if L < n: return (None, 0)
    for j in range(1, n):
        for t in (7, 6):
            if b[j][t] not in (0, 1): return ('split', b[j][t][1:])
        if (b[j][7], b[j][6]) != (1, 0): return (None, 0)
    v = ()
    for j in range(n - 1, 0, -1): v += b[j][:6]
    v += x[:7 - n]
    lo, hi = bits.lo(v), bits.hi(v)
    least = {2: 0x80, 3: 0x800, 4: 0x10000}[n]
    # overlong forms, surrogates and numbers that are no code points may be refused
    legal = hi >= least and lo <= 0x10FFFF and not (lo >= 0xD800 and hi <= 0xDFFF)
    return (v, n) if legal else (v, n, 'optional')
def run(ctx):
    Z = r'^_ZNK4Pire12_GLOBAL__N_1[0-9]+(Utf8|Latin1)(7ToLocal|9FromLocal)'
    m = norm(Z)
    u8, l1 = fn(ctx, m, r'4Utf87ToLocal'), fn(ctx, m, r'6Latin17ToLocal')
    n = to_local(ctx, m, 'UTF-8 of', u8, 0x1FFFFF, lambda c: None if enc_class(c) is None else encode(c))
    n += to_local(ctx, m, 'Latin1 of', l1, 0xFFFFFFFF, lambda c: [c[:8]] if bits.hi(c) < 0x80 else [] if bits.lo(c) >= 0x80 else None)
    n += from_local(ctx, m, 'decoding UTF-8', fn(ctx, m, r'4Utf89FromLocal'), True)
    n += from_local(ctx, m, 'decoding Latin1', fn(ctx, m, r'6Latin19FromLocal'), False)
    ctx.cov['cases'] = n
    ctx.atleast('encode', 6); ctx.atleast('decode', 20)
    ctx.explanation = ('abstract interpretation, bit by bit, of the conversions: code points and input bytes are split into cases exactly where the code branches; '
                       'in each case every output bit must be the standard input bit')
