"""How the row headers consulted by the accelerated runner are computed.

One iteration of the loop over states is interpreted over an abstract row: the mask slots hold constants or
fills of the bytes of letters; every letter's transition either stays in the row or leaves it; a letter owns
n bytes (n in SIZES).  The outcome of every iteration must justify what the runner concludes from the header."""
from runner import *
import runner

class Rows(Runner):
    ALIGN = 1
    def __init__(self, mod, fn, dims, roots):
        self.d = dims                       # slot, nslots, hs, tsize, row, letters, nletters, nstates, reloc
        self.sizes = list(range(dims['nslots'] + 2)) + [256]
        Runner.__init__(self, mod, fn, dict(setup=self.setup, ret=self.atret), 0, 0)
        self.top = {h for h in self.heads if not any(h in b and o != h for o, b in self.heads.items())}
        self.finals = []; self.target = set(); self.index = {}; self.nlet = 0; self.once = set(); self.nchars = 0; self.npush = 0
        self.used = set(range(100000))      # positions are never forgotten here
    def setup(self, r, st):
        for k in range(len(self.f.d.get('ditypes') or [0, 0])): st.env[('p', k)] = sym('p%d' % k)
        st.g['row'] = self.ghost()
        st.push = frozenset(); st.enter = None; st.done = frozenset()
    def ghost(self, k=0):
        n = self.d['slot'] // 8 * self.d['nslots']
        return dict(cur=sym('BEG'), lf=None, ff=None, tag=None, fin=None, dead=None, bm=None, em=None, n=0, hf=frozenset(),
                    w=(('u',),) * n, row=None, lix=None, len=0, pend=False, exits=False, lost=False, missed=False, need=frozenset(), trix=None, touched=False)
    def val(self, st, o):
        if o[0] == 'p': return st.env.get(('p', o[1])) or sym('p%d' % o[1])
        return Runner.val(self, st, o)
    def G(self, st): return st.g['row']
    def copyst(self, st): return st.copy()
    # ---- addresses
    def field(self, addr):
        """(root, offset) of a field access"""
        if len(addr[1]) == 1 and addr[1][0][1] == 1: return addr[1][0][0], sg(addr[2])
        return None
    def rowaddr(self, addr):
        """(row terms, letter-ish rest) when the address lies in the transition table"""
        for s, c in addr[1]:
            if s.startswith('fld:') and s.endswith(':%d' % self.d['row']) and c == 1:
                fixed = tuple((t, k) for t, k in addr[1] if t in ('BEG', 'END') or t[0] == 'K')
                return tuple(x for x in addr[1] if x not in fixed), ('L', fixed, addr[2])
        return None
    def letterof(self, byte_off, size):
        """cursor position of an element offset (bytes) in a table of `size`-byte elements indexed like a row"""
        t = []
        for s, c in byte_off[1]:
            c = sg(c)
            if c % size: return None
            t.append((s, (c // size) & W))
        k = sg(byte_off[2])
        if k % size: return None
        x = ('L', tuple(t), (k // size - self.d['hs']) & W)
        return ladd(x, sym('BEG'))
    # ---- letters
    def settle(self, st):
        g = self.G(st)
        if g['pend']:
            names = set()
            wps = self.d['slot'] // 8
            for k in range(g['len'] if g['len'] <= self.d['nslots'] else 0):
                a = lc(sym('LB'), k); fill = ('B',) + (('M', a),) * 8
                hit = [j for j in range(self.d['nslots']) if all(x == fill for x in g['w'][j * wps:(j + 1) * wps])]
                if not hit: g['lost'] = True; continue
                nm = 'OLD%d' % min(z for z in range(9) if 'OLD%d' % z not in g['need'] | names)
                names.add(nm); new = ('B',) + (('M', sym(nm)),) * 8
                g['w'] = tuple(new if x == fill else x for x in g['w'])
            if g['len'] > self.d['nslots']: g['lost'] = True
            g['need'] |= names; g['pend'] = False
        mentions = lambda v: isinstance(v, tuple) and 'LB' in syms(v, set())
        st.env = {k: (TOP if mentions(v) else v) for k, v in st.env.items()}
        for k in [k for k, (n, v) in st.mem.items() if mentions(v)]: del st.mem[k]
        g['w'] = tuple(('u',) if mentions(x) else x for x in g['w'])
        g['lix'] = None; g['len'] = 0
    def touch(self, st, ix):
        """states in which the letter at ix has a definite number of bytes"""
        g = self.G(st)
        if g['lix'] == ix: return None
        if g['lix'] is not None: self.settle(st)
        out = []
        for n in self.sizes:
            t = st.copy()
            self.G(t)['lix'] = ix; self.G(t)['len'] = n; out.append(t)
        return out
    def exec(self, st, ins):
        if ins['o'] == 'load':
            a = self.val(st, ins['a'][0])
            if a[0] == 'L':
                ix = None; ra = self.rowaddr(a); la = self.listaddr(st, a)
                if ra:
                    if not (not ra[1][1] and sg(ra[1][2]) < self.d['hs'] * self.d['tsize']): ix = self.letterof(ra[1], self.d['tsize'])
                elif la is not None and la[0] is not None: ix = la[0]
                if ix is not None and self.d_in(st, ix):
                    f = self.touch(st, ix)
                    if f is not None: return f
        if ins['o'] == 'sext' or ins['o'] == 'zext':
            v = self.val(st, ins['a'][0])
            if v[0] == 'L' and v[1]: st.env[ins['i']] = v; return None
            if ins['o'] == 'sext' and v[0] == 'B' and all(x[0] == 'M' for x in v[1:]):
                st.env[ins['i']] = v + (('sx',),) * (ins['w'] // 8 - len(v) + 1); return None
        if ins['o'] == 'trunc':
            v = self.val(st, ins['a'][0])
            if v[0] == 'L' and v[1] and ins['w'] >= 32: st.env[ins['i']] = v; return None
        return Runner.exec(self, st, ins)
    def d_in(self, st, ix):
        iv = self.interval(st, ladd(sym('END'), ix, -1)); return iv is not None and iv[0] >= 1
    def listaddr(self, st, a):
        """element of the local table of byte lists: (letter or None, raw index value, offset in the element)"""
        for s, c in a[1]:
            if s.startswith('fld:a') and s.endswith(':0') and c == 1:
                rest = ladd(a, sym(s), -1); k = sg(rest[2]); esz = 24
                off = k % esz; rest = ('L', rest[1], (k - off) & W)
                if any(t.startswith('map:') for t, _ in rest[1]): return None, rest, off
                return self.letterof(rest, esz), rest, off
        return None
    # ---- memory
    def load(self, st, addr, n, ins):
        ra = self.rowaddr(addr)
        g = self.G(st)
        if ra:
            terms, rest = ra
            k = sg(rest[2])
            if not rest[1] and 0 <= k < self.d['slot'] * self.d['nslots']:
                if n != 8 or k % 8: raise Unsupported('mask word read of %d bytes at %d' % (n, k))
                self.samerow(g, terms, ins, False)
                v = g['w'][k // 8]
                return self.fresh('u') if v == ('u',) else v
            if not rest[1] and k < self.d['hs'] * self.d['tsize']: return self.fresh('u')
            ix = self.letterof(rest, self.d['tsize'])
            if ix is None or n != self.d['tsize']: raise Unsupported('read of the transition table')
            if not self.d_in(st, ix): return self.fresh('u')
            self.samerow(g, terms, ins, False)
            nm = lambda v: isinstance(v, tuple) and 'TR' in syms(v, set())
            st.env = {q: (TOP if nm(v) else v) for q, v in st.env.items()}
            g['trix'] = ix
            return sym('TR')
        la = self.listaddr(st, addr)
        if la:
            ix, raw, off = la
            if ix is None or not self.d_in(st, ix): return self.fresh('u')
            if n != 8 or off not in (0, 8): raise Unsupported('list header')
            return sym('LB') if off == 0 else lc(sym('LB'), g['len'])
        if len(addr[1]) == 1 and addr[1][0] == ('LB', 1):
            k = sg(addr[2])
            if n != 1 or not 0 <= k < g['len']: raise Unsupported('bytes of a letter')
            return ('B', ('M', addr))
        f = self.field(addr)
        if f and f[0].startswith('fld:') and f[0].endswith(':%d' % self.d['letters']) and n == 2: return sym('map:%d' % f[1])
        if f:
            k = f
            if k in st.mem and st.mem[k][0] == n: return st.mem[k][1]
            if n == 4 and f[1] == self.d['nletters'] and self.isscanner(f[0]): return ladd(sym('END'), sym('BEG'), -1)
            return sym('fld:%s:%d' % f)
        return self.fresh('u')
    def isscanner(self, root): return root[0] != 'a'
    def samerow(self, g, terms, ins, write):
        if g['row'] is None: g['row'] = terms
        elif g['row'] != terms:
            self.bad('row', ins, 'the header and the transitions considered belong to different states')
    def store(self, st, addr, n, v, ins):
        ra = self.rowaddr(addr); g = self.G(st)
        if ra:
            terms, rest = ra; k = sg(rest[2])
            if st.enter is None:
                self.bad('row', ins, 'a row of the table is written outside the loop over the states')
            if rest[1] or not 0 <= k < self.d['slot'] * self.d['nslots']: self.bad('row', ins, 'a mask is written outside the masks of the state')
            if n != 8 or k % 8: raise Unsupported('mask store of %d bytes at %d' % (n, k))
            self.samerow(g, terms, ins, True)
            if v[0] not in 'LB' or v == TOP: v = ('u',)
            g['w'] = g['w'][:k // 8] + (v,) + g['w'][k // 8 + 1:]
            g['touched'] = True; self.ok('store', ins)
            return
        k = self.slot(addr)
        if k and k[0][0] == 'a': Runner.store(self, st, addr, n, v, ins)
        elif any(s == 'LB' for s, _ in addr[1]): raise Unsupported('store into a list')
    def opaque(self, o, x, c):
        if any(s[0] == 'K' for s, _ in x[1]): return TOP
        return sym('f:%s:%s:%s' % (o, x, c))
    def hook_binop(self, st, o, x, y, ins):
        if o in ('mul', 'and', 'sdiv', 'udiv', 'shl') and x[0] == 'L' and y[0] == 'L' and x[1] and (y[1] if o == 'mul' else const(y) is not None):
            if o == 'and' and const(y) < 2: return None
            if o == 'shl': return None
            if any(s[0] == 'K' for s, _ in x[1] + y[1]): return None
            if o == 'mul': x, y = sorted((x, y), key=str)
            return sym('f:%s:%s:%s' % (o, x, y))
        return None
    # ---- decisions
    def cmp(self, st, p, x, y, ins):
        if p in ('eq', 'ne') and x[0] == 'L' and y[0] == 'L':
            for a, b in ((x, y), (y, x)):
                if any(s == 'TR' for s, _ in a[1]):
                    d = ladd(a, b, -1); g = self.G(st)
                    base = ladd(d, sym('TR'), -1)
                    row = ('L', g['row'], 0)
                    good = base == L(0) if self.d['reloc'] else base == ladd(L(0), row, -1)
                    if not good: break
                    return self.decide(st, p, ins)
        if x[0] == 'L' and y[0] == 'L' and st.enter is not None and p in ('eq', 'ne', 'ult', 'ugt', 'slt', 'sgt'):
            for a, b in ((x, y), (y, x)):
                ws = [s for s, _ in a[1] if s.startswith('W%d.' % st.enter)]
                if ws and len(a[1]) == 1:
                    if len(b[1]) == 1 and b[1][0][0].endswith(':%d' % self.d['nstates']) and not b[2] and not a[2]:
                        self.bounds = getattr(self, 'bounds', set()) | {(st.enter, ws[0])}
        return Runner.cmp(self, st, p, x, y, ins)
    def decide(self, st, p, ins):
        g = self.G(st); ix = g['trix']
        self.nlet += 1; self.ok('letter', ins)
        d = const(ladd(ix, g['cur'], -1))
        t = st.copy()
        out = []
        for s, leaves in ((t, True), (st, False)):
            q = self.G(s)
            if d is None or sg(d) > 0: q['missed'] = True
            if d is None or sg(d) >= 0: q['cur'] = lc(ix, 1)
            if leaves and q['len']: q['pend'] = True; q['exits'] = True
            s.nlen += 1
            out.append((s, leaves == (p == 'ne')))
        return out
    # ---- calls
    def call(self, st, ins):
        f = ins.get('f') or ''
        fn = self.m.fns.get(f); dn = fn.dname if fn else f
        a = [self.val(st, x) for x in ins.get('a', [])]
        if 'vector<char' in dn and '::push_back(' in dn or 'vector<char' in dn and '::emplace_back' in dn:
            la = self.listaddr(st, a[0]) if a[0][0] == 'L' else None
            v = a[1]
            if v[0] == 'L' and v[1]: v = self.load(st, v, 1, ins)
            c = const(v) if v[0] == 'L' else None
            if la is None or c is None: raise Unsupported('list insertion')
            want = ((('map:%d' % (2 * c), 24),), 0)
            if (la[1][1], la[1][2]) != want or la[2]: self.bad('bytes', ins, 'byte %d is entered under a letter that is not its own' % c)
            self.npush += 1; self.ok('bytes', ins)
            st.push = st.push | {c}
            return [(st, TOP)]
        if f.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume')): return [(st, None)]
        for x in a:                       # anything else may change the objects it is handed
            if x[0] == 'L' and len(x[1]) == 1 and x[1][0][0][0] == 'a':
                for k in [k for k in st.mem if k[0] == x[1][0][0]]: del st.mem[k]
            if x[0] == 'L' and self.rowaddr(x): raise Unsupported('%s is handed a row of the table' % dn)
        return [(st, self.fresh('u'))]
    def nonnull(self, v): return False
    # ---- loops
    def cp(self, st):
        return st.copy()
    def jump(self, st, b):
        r = Runner.jump(self, st, b)
        if st.enter is not None and b not in self.heads[st.enter]:
            g = self.G(st); h = st.enter
            if g['touched'] and st.prev != h and not self.leads_unwind(b): self.finals.append((h, 'left', None))
            st.enter = None; st.g['row'] = self.ghost()
            st.done = st.done | {h}
        return r
    def leads_unwind(self, b): return False
    def header(self, st):
        h = st.bl
        if h in self.top and not self.constant(h, st):
            if st.enter == h:
                self.atend(st, h); return False
            st.enter = h; st.g['row'] = self.ghost();
            self.index.setdefault(h, {})
            for i in self.f.blocks[h]:
                if i['o'] != 'phi': break
                self.index[h].setdefault(i['i'], set()).add(st.env.get(i['i']))
                st.env[i['i']] = sym('W%d.%d' % (h, i['i']))
            S = (h, tuple(sorted(((str(k), str(v)) for k, v in st.env.items()))), st.push, st.done)
            if S in self.once: return False
            self.once.add(S); return True
        g = self.G(st); cur = g['cur']
        S = self.comps(st); S[('x', 0)] = (st.push, st.enter, st.done)
        seen = self.seen.setdefault(h, [])
        for T, tst in seen:
            if self.match(T, tst, S, st, cur, h): return False
        for T, tst in reversed(seen):
            j = self.widen(T, tst, S, st, h)
            if j is None: continue
            K = 'K%d' % h
            for k, v in j.items():
                if k[0] == 'e': st.env[k[1]] = v
                elif k[0] == 'm': st.mem[k[1]] = (st.mem[k[1]][0], v)
                else: st.g[k[1]][k[2]] = v
            lo = min(self.interval(z, ladd(sym('END'), c, -1))[0] for z, c in ((tst, T[('g', 'row', 'cur')]), (st, cur)))
            st.lo = {k: v for k, v in st.lo.items() if K not in k}; st.hi = {k: v for k, v in st.hi.items() if K not in k}
            st.lo[('END', K)] = max(lo, 0); st.lo[(K, 'BEG')] = 0
            S = self.comps(st); S[('x', 0)] = (st.push, st.enter, st.done); cur = self.G(st)['cur']
            for T2, t2 in seen:
                if self.match(T2, t2, S, st, cur, h): return False
            break
        seen.append((S, self.cp(st)))
        if len(seen) > 3000: raise Unsupported('no convergence at a loop of %s' % self.f.name)
        return True
    def constant(self, h, st):
        """the loop is left by comparing with a constant"""
        for b in self.heads[h]:
            for i in self.f.blocks[b]:
                if i['o'] == 'icmp' and any(x[0] in 'cC' for x in i['a']) and any(s not in self.heads[h] for s in self.f.succ(b)): return True
        return False
    def widen(self, T, tst, S, st, h):
        if T.keys() != S.keys(): return None
        tc, sc = T[('g', 'row', 'cur')], S[('g', 'row', 'cur')]
        if tc == sc: return None
        out = {}; K = sym('K%d' % h)
        for k, t in T.items():
            s = S[k]; a, b = (t[1], s[1]) if k[0] == 'm' else (t, s)
            if a == b: 
                if isinstance(a, tuple) and a and a[0] == 'L' and 'K%d' % h in syms(a, set()): return None
                continue
            if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ('L',) and b[:1] == ('L',):
                p, q = ladd(a, tc, -1), ladd(b, sc, -1)
                if p == q: out[k] = ladd(K, p); continue
            return None
        return out
    def sig(self, st): return 0
    def atend(self, st, h):
        g = self.G(st)
        steps = {}
        for i in self.f.blocks[h]:
            if i['o'] != 'phi': break
            steps[i['i']] = st.env.get(i['i'])
        self.settle(st)
        wps = self.d['slot'] // 8
        w0 = g['w'][:wps]
        done = g['missed'] is False and const(ladd(g['cur'], sym('END'), -1)) == 0
        have = set()
        for j in range(self.d['nslots']):
            x = g['w'][j * wps:(j + 1) * wps]
            if len(set(x)) == 1 and x[0][0] == 'B' and len(set(x[0][1:])) == 1 and x[0][1][0] == 'M': have.add(x[0][1][1][1][0][0] if x[0][1][1][1] else None)
        c = {const(x) if x[0] == 'L' else None for x in w0}
        c = next(iter(c)) if len(c) == 1 else None
        safe = done and not g['lost'] and g['need'] <= have
        uniform = all(len(set(g['w'][j * wps:(j + 1) * wps])) == 1 and g['w'][j * wps] != ('u',) for j in range(self.d['nslots']))
        self.finals.append((h, 'row' if g['touched'] else 'none', dict(const=c, safe=safe, done=done, exits=g['exits'], uniform=uniform, bytes=st.push, row=g['row'], steps=steps, fill=w0[0][0] == 'B' and len(set(w0)) == 1)))
        if g['touched']: self.target.add(h)
    def atret(self, r, st, v, ins):
        self.finals.append((None, 'ret', st.done))
