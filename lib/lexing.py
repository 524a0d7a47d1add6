"""Abstract interpretation of the lexer: the characters of the expression are given, terminals are tracked objects."""
import re
import bits
from bits import Bits, St, const, ival, sval, isbits, top, named
from ctx import Broken
from U01 import gload
class Trouble(Exception): pass
class Shared:
    """what nested interpretations have in common"""
    def __init__(self, m, vt, feats, text, off, mem=None):
        self.m, self.vt, self.feats, self.input, self.off = m, vt, feats, list(text), off
        self.error = None; self.steps = 0; self.rel = {}
class Lexing(Bits):
    merge = False; nounwind = True
    def __init__(self, sh, fn, params, depth=0):
        self.sh, self.depth = sh, depth; self.outs = []
        if depth > 12: raise Broken('too deep')
        g = gload(sh.m)
        Bits.__init__(self, sh.m, fn, params, load=lambda run, st, p, size, w: self.load(st, p, size, w) or g(run, st, p, size, w), call=self.hook, ret=lambda run, s, v, i: self.outs.append((s, v)), limit=200000)
    def nested(self, st, fn, params):
        r = Lexing(self.sh, fn, params, self.depth + 1); r.nonce = self.depth
        # the callee's own variables are told apart by depth
        r.frame = '%%%d.' % (self.depth + 1)
        s = St(mem=st.mem); r.run(s)
        if r.need: self.need = r.need
        if self.sh.error is not None: return 'noreturn'
        if len(r.outs) != 1: raise Broken('%d ways out of %s' % (len(r.outs), fn.name))
        st.mem = r.outs[0][0].mem
        v = r.outs[0][1]
        return v if v is not None else 'void'
    frame = '%'
    def simple(self, st, i, o, a, w):
        if o == 'alloca': st.env[i['i']] = ('P', '%s%d' % (self.frame, i['i']), 0); return
        Bits.simple(self, st, i, o, a, w)
    def load(self, st, p, size, w):
        b, o = p[1], p[2]
        if b == 'LEX' and size == 8 and o is not None:
            if o == self.sh.off: return ('P', 'FV', 0)
            if o == self.sh.off + 8: return ('P', 'FV', 8 * len(self.sh.feats))
        if b == 'FV' and o is not None and o % 8 == 0 and o // 8 < len(self.sh.feats): return ('P', 'FE:%s' % self.sh.feats[o // 8], 0)
        if b.startswith('@') and o is not None and size == 8:
            if b not in self.sh.rel:
                g = self.sh.m.globals.get(b[1:]) or {}; d = dict(map(tuple, g.get('reladd') or []))
                self.sh.rel[b] = {x: (t, d.get(x, 0)) for x, t in g.get('rel') or []}
            t = self.sh.rel[b].get(o)
            if t: return ('P', '@' + t[0], t[1])
        if b.startswith('FE:'):
            if o == 0: return ('P', 'VT:' + b[3:], 16)
            return ('P', 'LEX', 0)
        if b.startswith('VT:'):
            f = self.sh.vt.get(b[3:], {}).get(o)
            if f is None: raise Broken('unknown virtual function')
            return ('P', 'FN:' + f, 0)
        return None
    def num(self, v, what='number'):
        n = ival(v) if v is not None and isbits(v) else None
        if n is None: raise Broken('unknown ' + what)
        return n
    def key(self, p):
        if not p or p[0] != 'P' or p[2] is None: raise Broken('object at an unknown address')
        return ('T' + p[1], p[2])
    def obj(self, st, p): return st.mem.get(self.key(p), (0, None))[1]
    def setobj(self, st, p, v): st.mem[self.key(p)] = (0, v)
    def hook(self, run, st, i, w):
        f = i.get('f') or ''; a = [self.op(st, x, None) for x in i['a']]; D = self.sh.input
        if not f and 'fp' in i:
            t = self.op(st, i['fp'])
            if not t or t[0] != 'P' or not t[1].startswith('FN:'): raise Broken('unknown indirect call')
            f = t[1][3:]
        n = f
        if re.match(r'_ZNK?St5deque', f):
            if f.endswith('5emptyEv'): return const(int(not D), 1)
            if f.endswith('4sizeEv'): return const(len(D), 64)
            if re.search('front', f) and not re.search('(push|pop)', f):
                if not D: raise Trouble('reads a character behind the end of the expression')
                st.mem[('DQ', 0)] = (4, const(D[0], 32)); return ('P', 'DQ', 0)
            if 'pop_front' in f:
                if not D: raise Trouble('takes a character behind the end of the expression')
                D.pop(0); return 'void'
            if 'push_front' in f:
                v = self.rd(st, a[1], 4, 32); D.insert(0, self.num(v, 'character')); return 'void'
            raise Broken('unmodelled deque operation ' + f)
        if re.search(r'4Pire(5Lexer|7Feature)5ErrorE', f): self.sh.error = 'error'; return 'noreturn'
        if f == '__cxa_throw': self.sh.error = 'error'; return 'noreturn'
        if f == 'strchr':
            s = self.cstr(st, a[0]); c = self.num(a[1], 'character') & 0xff
            if c == 0: return ('P', a[0][1], a[0][2] + len(s))
            k = s.find(chr(c))
            return const(0, 64) if k < 0 else ('P', a[0][1], a[0][2] + k)
        if f == 'isxdigit':
            c = sval(a[0][:32]) if a[0] is not None and isbits(a[0]) else None
            if c is None: raise Broken('unknown character')
            if not -1 <= c <= 255: raise Trouble('classifies the character %d as a byte' % c)
            return const(int(chr(c) in '0123456789abcdefABCDEF') if c >= 0 else 0, 32)
        m = re.match(r'_ZNK?4Pire4Term(.*)$', f)
        if m: return self.term(st, m.group(1), a, i)
        if re.search(r'numeric_limitsIiE3max', f): return const(0x7fffffff, 32)
        if 'function' in f and f.startswith('_ZNKSt8function') and 'clE' in f:
            g = self.obj(st, a[0]); return self.nested(st, self.find(g), [('P', 'lambda', 0)] + [self.fixw(x) for x in a[1:]])
        if f.startswith('_ZNSt8function'):
            if re.search(r'D[012]Ev$', f): return 'void'
            m = re.search(r'C[12]IZ(.*?)vEEOT_$', f) or re.search(r'C[12]IZ(.*?)v?EE?OT_$', f)
            if m: self.setobj(st, a[0], m.group(1)); return 'void'
            if re.search(r'C[12]E(RKS|OS)', f): self.setobj(st, a[0], self.obj(st, a[1])); return 'void'
            raise Broken('unmodelled function object ' + f)
        if f.startswith(('_ZNSt7__cxx1112basic_string', '_ZNKSt7__cxx1112basic_string')): return self.string(st, f, a, w)
        if '5stoul' in f:
            s = self.obj(st, a[0]) or ''
            if self.num(a[2][:32]) != 16: raise Trouble('reads a hexadecimal number in another base')
            if not s: raise Trouble('reads a number from no digits')
            v = int(s, 16)
            if v >> 64: raise Broken('number out of range')
            return const(v, 64)
        if re.search(r'_ZNSt6vectorIjSaIjEEC[12]EmRKj', f):
            k = self.num(a[1]); c = self.num(self.rd(st, a[2], 4, 32), 'character'); self.setobj(st, a[0], (c,) * k); return 'void'
        if re.search(r'St6vectorIjSaIjEE(D|C)', f) or re.search(r'7TVectorIjSaIjEED', f):
            if 'C' in f.split('EE')[-1] or re.search(r'EEC[12]E(RKS|OS)', f): self.setobj(st, a[0], self.obj(st, a[1]))
            return 'void'
        if re.search(r'(TSetINS_7TVectorIj|St3setI)', f):
            if re.search(r'C[12]E(v|RKS|OS|RKNS|ONS)\S*$', f):
                self.setobj(st, a[0], self.obj(st, a[1]) if len(a) > 1 and not re.search(r'C[12]Ev$', f) else frozenset()); return 'void'
            if re.search(r'D[012]Ev$', f): return 'void'
            if '6insertE' in f:
                p = a[1] if len(a) == 2 else a[-1]; self.setobj(st, a[0], self.obj(st, a[0]) | {self.obj(st, p)}); return 'void'
            raise Broken('unmodelled set operation ' + f)
        if 'allocator' in f or f == '__cxa_begin_catch' or f == '__cxa_end_catch': return 'void'
        if (i.get('intr') or '').startswith('llvm') or i.get('nr'): return None
        g = self.sh.m.fns.get(f)
        if g is not None and not g.decl: return self.nested(st, g, [self.fixw(x) for x in a])
        raise Broken('the lexer calls an unmodelled function: ' + n)
    def fixw(self, v): return v
    def find(self, g):
        c = [x for x in self.sh.m.fns if x.startswith('_ZZ' + g.split('E3$')[0].split('vE')[0]) and '$' in x and x.endswith('clEjm')]
        k = re.search(r'\$_?(\d+)', g)
        c = [x for x in c if re.search(r'\$_?%s' % k.group(1) + r'\D', x)] if k else c
        if len(c) != 1: raise Broken('function object not found: ' + g)
        return self.sh.m.fns[c[0]]
    def cstr(self, st, p):
        out = ''
        for k in range(64):
            c = self.num(self.rd(st, ('P', p[1], p[2] + k), 1, 8), 'string')
            if c == 0: return out
            out += chr(c)
        raise Broken('endless string')
    def string(self, st, f, a, w):
        if re.search(r'C[12]Ev$', f): self.setobj(st, a[0], ''); return 'void'
        if re.search(r'D[012]Ev$', f): return 'void'
        if '9push_back' in f or f.endswith('pLEc'): self.setobj(st, a[0], (self.obj(st, a[0]) or '') + chr(self.num(a[1][:8]))); return 'void'
        if re.search(r'(4sizeEv|6lengthEv)$', f): return const(len(self.obj(st, a[0]) or ''), 64)
        if f.endswith('5emptyEv'): return const(int(not self.obj(st, a[0])), 1)
        if re.search(r'(aSE|C[12]E)(RKS4_|OS4_)$', f): self.setobj(st, a[0], self.obj(st, a[1])); return a[0]
        if 'reserve' in f: return 'void'
        raise Broken('unmodelled string operation ' + f)
    def term(self, st, m, a, i):
        s32 = lambda v: sval(v[:32]) if v is not None and isbits(v) and ival(v[:32]) is not None else None
        if m.startswith('9Character'): self.setobj(st, a[0], ('char', self.num(a[1][:32], 'character'))); return 'void'
        if m.startswith('10Repetition'): self.setobj(st, a[0], ('count', s32(a[1]), s32(a[2]))); return 'void'
        if m.startswith('3Dot'): self.setobj(st, a[0], ('.',)); return 'void'
        if m.startswith('9BeginMark'): self.setobj(st, a[0], ('^',)); return 'void'
        if m.startswith('7EndMark'): self.setobj(st, a[0], ('$',)); return 'void'
        if re.match(r'C[12]Ei$', m): self.setobj(st, a[0], ('type', s32(a[1]))); return 'void'
        if re.match(r'C[12]INS_5ypair', m):
            r = self.obj(st, a[2]); neg = self.rd(st, ('P', a[2][1], a[2][2] + 48), 1, 8)
            if r is None: raise Broken('a range of unknown characters')
            self.setobj(st, a[0], ('range', s32(a[1]), r, self.num(neg))); return 'void'
        if re.match(r'C[12]E(RKS0_|OS0_)', m) or m.startswith('aSE'): self.setobj(st, a[0], self.obj(st, a[1])); return 'void'
        if re.match(r'D[012]Ev', m): return 'void'
        if m.startswith('4Type'):
            t = self.obj(st, a[0]); return const(t[1] & 0xffffffff if t[0] == 'type' else 1, 32)
        raise Broken('unmodelled operation on a terminal: ' + m)
