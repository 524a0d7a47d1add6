"""Abstract interpretation of the expression parser: the tokens are given, automata are languages cut off at a length,
boxed values are tracked objects with an owner."""
import re, itertools
import bits
from bits import Bits, St, const, ival, sval, isbits, top
from ctx import Broken
INF = -1
class World:
    """languages over an alphabet, cut off at n letters; exact for every operation on automata"""
    def __init__(self, letters, n):
        self.letters, self.n = letters, n
        self.all = frozenset(w for k in range(n + 1) for w in itertools.product(letters, repeat=k))
    def cat(self, a, b): return frozenset(x + y for x in a for y in b if len(x) + len(y) <= self.n)
    def star(self, a):
        r = frozenset([()]); new = r
        while new: t = self.cat(new, a) - r; r |= t; new = t
        return r
    def power(self, a, k):
        r = frozenset([()])
        for _ in range(k):
            s = self.cat(r, a)
            if s == r: break
            r = s
        return r
    def repeat(self, a, lo, hi):
        r = self.power(a, lo)
        if hi == INF: return self.cat(r, self.star(a))
        return self.cat(r, self.power(a | {()}, hi - lo))
    def dot(self): return frozenset((c,) for c in self.letters if c not in '^$')
# ---- the specification: a reading of the token sequence
class Refused(Exception): pass
class Reading:
    def __init__(self, world, toks): self.w, self.t, self.k, self.groups = world, toks, 0, []
    def peek(self): return self.t[self.k][0] if self.k < len(self.t) else None
    def whole(self):
        r = self.alt()
        if self.peek() is not None: raise Refused()
        return r
    def alt(self):
        r = self.conj()
        while self.peek() == '|': self.k += 1; r = r | self.conj()
        return r
    def conj(self):
        r = self.neg()
        while self.peek() == '&': self.k += 1; r = r & self.neg()
        return r
    def neg(self):
        if self.peek() == '~': self.k += 1; return self.w.all - self.cat()
        return self.cat()
    def cat(self):
        r = frozenset([()])
        while self.peek() in ('c', 'n', '.', '^', '$', '('):
            r = self.w.cat(r, self.item())
        return r
    def item(self):
        k, *v = self.t[self.k]; self.k += 1
        if k == 'c': r = frozenset((c,) for c in v[0])
        elif k == 'n': r = self.w.dot() - frozenset((c,) for c in v[0])
        elif k == '.': r = self.w.dot()
        elif k in '^$': r = frozenset([(k,)])
        else:
            r = self.alt()
            if self.peek() != ')': raise Refused()
            self.k += 1; self.groups.append(r)
        if self.peek() == '#':
            lo, hi = self.t[self.k][1:]; self.k += 1
            r = self.w.repeat(r, lo, hi); self.groups.append(r)
        return r
def text(toks):
    def one(t):
        if t[0] == 'c': return t[1] if len(t[1]) == 1 else '[%s]' % t[1]
        if t[0] == 'n': return '[^%s]' % t[1]
        if t[0] == '#':
            return {(0, INF): '*', (1, INF): '+', (0, 1): '?'}.get(t[1:]) or '{%d%s}' % (t[1], '' if t[1] == t[2] else ',' if t[2] == INF else ',%d' % t[2])
        return t[0]
    return '"%s"' % ''.join(map(one, toks))
# ---- the interpreter
class Trouble(Exception): pass
FSMOP = [(r'(C[12]Ev)$', 'new'), (r'C[12]E(RKS0_|OS0_)$', 'copy'), (r'D[012]Ev$', 'dtor'), (r'aSE(RKS0_|OS0_)$', 'assign'), (r'aSES0_$', 'assign'), (r'oRERKS0_$', 'or='), (r'aNERKS0_$', 'and='), (r'pLERKS0_$', 'cat='), (r'mLEm$', 'pow='),
         (r'10ComplementEv$', 'not='), (r'7IterateEv$', 'star='), (r'orERKS0_$', 'or'), (r'anERKS0_$', 'and'), (r'plERKS0_$', 'cat'), (r'mlEm$', 'pow'), (r'deEv$', 'star'), (r'coEv$', 'not'), (r'14RemoveDeadEndsEv$', 'same'),
         (r'8CanonizeEm$|9DetermineEm$|8MinimizeEv$', 'same'), (r'13AppendSpecialEj$|13AppendSpecialE[a-z]$', 'special'), (r'9MakeFalseEv$', 'false'), (r'4SwapERS0_$', 'swap')]
TYPE = [('3Fsm', 'fsm'), ('6DotTag', 'dot'), ('8BeginTag', 'begin'), ('6EndTag', 'end'), ('ypairINS_4TSet', 'range'), ('ypairIii', 'count')]
class Parser(Bits):
    merge = False; nounwind = True
    def setup(self, world, toks, kinds, marks, lexerror=None):
        self.wd, self.toks, self.kinds, self.marks, self.at = world, toks, kinds, marks, 0
        self.heap = {}; self.n = 0; self.bad = []; self.groups = []; self.result = None; self.rc = None; self.lexerror = lexerror; self.err = False; self.threw = False
    def key(self, p, what):
        if not p or p[0] != 'P' or p[2] is None: raise Broken('%s at an unknown address' % what)
        return p[1], p[2]
    def alive(self, p):
        b = p[1].split('#')[0]
        if self.heap.get(b) == 'freed' and b not in self.bad: self.bad.append('uses a value it has already released')
    def lang(self, st, p):
        self.alive(p); v = st.mem.get(('L' + p[1], p[2]))
        if v is None: raise Broken('automaton with unknown contents')
        return v[1]
    def setlang(self, st, p, l): self.alive(p); st.mem[('L' + p[1], p[2])] = (0, l)
    def any(self, st, p):
        self.alive(p); v = st.mem.get(('A%s' % p[1], p[2]))
        return v[1][0] if v else None
    def inner(self, st, p): return ('P', st.mem[('A' + p[1], p[2])][1][1], 0)
    def value(self, st, p):
        """a fresh copy of what a boxed value holds"""
        k = self.any(st, p)
        return (k, st.mem.get(('L' + self.inner(st, p)[1], 0))) if k else None
    def setany(self, st, p, v):
        old = st.mem.pop(('A' + p[1], p[2]), None)
        if old: self.heap[old[1][1].rstrip('#')] = 'freed'
        if v and v[0]:
            self.n += 1; o = 'o%d#' % self.n; st.mem[('A' + p[1], p[2])] = (0, (v[0], o))
            if v[1] is not None: st.mem[('L' + o, 0)] = v[1]
    def load(self, st, p, size, w):
        b = p[1]
        if b == 'ENC': return ('P', 'ENCVT', 0)
        if b == 'ENCVT': return ('P', 'ENCFN', p[2])
        if '#' in b:
            self.alive(p)
            k = st.mem.get(('L' + b, 0)); v = k and k[1]
            if isinstance(v, tuple) and v[0] == 'count' and size == 4 and p[2] in (0, 4): return const(v[1 + p[2] // 4] & 0xffffffff, 32)
            if isinstance(v, tuple) and v[0] == 'range' and size == 1 and p[2] == 48: return const(int(v[2]), 8)
        return None
    def hook(self, run, st, i, w):
        f = i.get('f') or ''; a = [self.op(st, x) for x in i['a']]
        if not f and 'fp' in i:
            t = self.op(st, i['fp'])
            if t and t[1] == 'ENCFN':
                l = self.lang(st, a[1]); self.setlang(st, a[1], self.wd.cat(l, self.wd.dot())); return 'void'
            raise Broken('unknown indirect call in the parser')
        if f in ('_Znwm',):
            self.n += 1; self.heap['h%d' % self.n] = 'live'; return ('P', 'h%d' % self.n, 0)
        if f in ('_ZdlPv', '_ZdlPvm'):
            if isbits(a[0]) and ival(a[0]) == 0: return 'void'
            b = a[0][1]
            if b not in self.heap: self.bad.append('releases something it did not create'); return 'void'
            if self.heap[b] == 'freed': self.bad.append('releases a value twice')
            self.heap[b] = 'freed'; return 'void'
        if f in ('malloc',): self.n += 1; return ('P', 'm%d' % self.n, 0)
        if f == 'free': return 'void'
        if f == '__cxa_throw': self.threw = True; return 'noreturn'
        if 'yylex' in f: return self.lex(st, a)
        m = re.match(r'_ZNK?4Pire3Any(.*)$', f)
        if m: return self.anyop(st, m.group(1), a)
        if re.match(r'_ZNK?4Pire3Fsm', f): return self.fsmop(st, f, a)
        if f.startswith('_ZN4Pire3FsmD'): return 'void'
        m = re.match(r'_ZNK?4Pire5Lexer([0-9]+)([A-Za-z]+)', f)
        if m:
            n = m.group(2)
            if n.startswith('Encoding'): return ('P', 'ENC', 0)
            if n.startswith('Retval'): return ('P', 'RET', 0)
            if n.startswith('ErrMsg'): return ('P', 'ERR', 0)
            if n.startswith('SetErrMsg'): self.err = True; return 'void'
            if n.startswith('Parenthesized'): self.groups.append(self.lang(st, a[1])); return 'void'
            raise Broken('the parser calls an unmodelled function of the lexer: ' + n)
        if 'AppendRange' in f:
            fs = [x for x in a if x and x[0] == 'P' and ('L' + x[1], x[2]) in st.mem and isinstance(st.mem[('L' + x[1], x[2])][1], frozenset)]
            rs = [x for x in a if x and x[0] == 'P' and isinstance((st.mem.get(('L' + x[1], x[2])) or (0, 0))[1], tuple)]
            if len(fs) != 1 or len(rs) != 1: raise Broken('AppendRange with unknown arguments')
            r = self.lang(st, rs[0])
            self.setlang(st, fs[0], self.wd.cat(self.lang(st, fs[0]), frozenset((c,) for c in r[1]))); return 'void'
        if re.search(r'(set|TSet|_Rb_tree).*(C[12]E(RKS|OS)|C[12]ERKNS)', f) or re.search(r'ypairINS_4TSet.*C[12]E(RKS|OS)', f):
            l = st.mem.get(('L' + a[1][1], a[1][2]))
            if l is None: raise Broken('copy of an unknown set')
            st.mem[('L' + a[0][1], a[0][2])] = l
            if 'ypair' in f: st.mem[(a[0][1], a[0][2] + 48)] = (1, const(int(l[1][2]), 8))
            return 'void'
        if 'basic_string' in f:
            if f.endswith('5emptyEv'): return const(int(not self.err) if a[0][1] == 'ERR' else 0, 1)
            if w: return a[0]
            return 'void'
        if 'allocator' in f or 'runtime_error' in f or f.startswith('__cxa') or 'Error' in f: return ('P', 'exc', 0) if w else 'void'
        if re.search(r'([sS]et|_Rb_tree|ypair).*D[012]Ev$', f): return 'void'
        if f == 'dcgettext' or f == 'strlen': return None
        if (i.get('intr') or '').startswith('llvm') or i.get('nr'): return None
        raise Broken('the parser calls an unmodelled function: ' + f)
    def lex(self, st, a):
        if self.at < len(self.toks):
            t = self.toks[self.at]; self.at += 1
        else:
            if self.lexerror: self.err = True
            self.at += 1; self.wr(st, a[0], 8, const(0, 64), {}); return const(0, 32)
        val = {'c': ('range', ('range', t[1] if len(t) > 1 else '', False)), 'n': ('range', ('range', t[1] if len(t) > 1 else '', True)), '.': ('dot', None), '^': ('begin', None), '$': ('end', None), '#': ('count', ('count',) + tuple(t[1:]))}.get(t[0])
        if val:
            self.n += 1; b = 'h%d' % self.n; self.heap[b] = 'live'
            self.setany(st, ('P', b, 0), (val[0], (0, val[1]) if val[1] else None)); self.wr(st, a[0], 8, ('P', b, 0), {})
        else: self.wr(st, a[0], 8, const(0, 64), {})
        return const(self.kinds[t[0]], 32)
    def anyop(self, st, m, a):
        if m.startswith('D'): self.setany(st, a[0], None); return 'void'
        if re.match(r'C[12]E(RKS0_|OS0_)$', m): self.setany(st, a[0], self.value(st, a[1])); return 'void'
        if re.match(r'C[12]Ev$', m): self.setany(st, a[0], None); return 'void'
        if re.match(r'aSE', m): self.setany(st, a[0], self.value(st, a[1])); return a[0]
        if re.match(r'C[12]INS_3FsmE', m): self.setany(st, a[0], ('fsm', (0, self.lang(st, a[1])))); return 'void'
        if m.startswith('5EmptyEv'): return const(int(self.any(st, a[0]) is None), 1)
        if m.startswith('4Swap'):
            self.alive(a[0]); self.alive(a[1]); k, j = ('A' + a[0][1], a[0][2]), ('A' + a[1][1], a[1][2]); x, y = st.mem.pop(k, None), st.mem.pop(j, None)
            if y: st.mem[k] = y
            if x: st.mem[j] = x
            return 'void'
        k = next((v for s, v in TYPE if s in m), None)
        if k is None: raise Broken('unmodelled operation on a boxed value: ' + m)
        if m.startswith('3IsA'): return const(int(self.any(st, a[0]) == k), 1)
        if m.startswith('2As'):
            if self.any(st, a[0]) != k: raise Trouble('takes a value for what it is not (%s for %s)' % (self.any(st, a[0]), k))
            return self.inner(st, a[0])
        raise Broken('unmodelled operation on a boxed value: ' + m)
    def fsmop(self, st, f, a):
        o = next((k for r, k in FSMOP if re.search(r, f)), None); W = self.wd
        if o is None: raise Broken('unmodelled operation on an automaton: ' + f)
        num = lambda v: ival(v) if v is not None and isbits(v) else None
        if o == 'dtor': return 'void'
        if o == 'new': self.setlang(st, a[0], frozenset([()])); return 'void'
        if o == 'false': self.setlang(st, a[0], frozenset()); return 'void'
        if o == 'copy': self.setlang(st, a[0], self.lang(st, a[1])); return 'void'
        if o == 'swap':
            x, y = self.lang(st, a[0]), self.lang(st, a[1]); self.setlang(st, a[0], y); self.setlang(st, a[1], x); return 'void'
        sret = o in ('or', 'and', 'cat', 'pow', 'star', 'not'); p = a[1] if sret else a[0]; l = self.lang(st, p); rest = a[2:] if sret else a[1:]
        o = o.rstrip('=')
        if o == 'same': return a[0]
        if o in ('or', 'and', 'cat', 'assign'): r = self.lang(st, rest[0])
        if o == 'or': l = l | r
        elif o == 'and': l = l & r
        elif o == 'cat': l = W.cat(l, r)
        elif o == 'assign': l = r
        elif o == 'star': l = W.star(l)
        elif o == 'not': l = W.all - l
        elif o == 'pow':
            n = num(rest[0])
            if n is None: raise Broken('a power with an unknown exponent')
            if n == 0: l = frozenset([()])
            elif n > 1 << 40: raise Trouble('repeats %d times' % n)
            else: l = W.power(l, min(n, 4 * W.n + 4))
        elif o == 'special': l = W.cat(l, frozenset([(self.marks.get(num(rest[0]), '?'),)]))
        self.setlang(st, a[0] , l)
        return 'void' if sret else a[0]
