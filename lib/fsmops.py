"""Abstract interpretation of the automaton-building code.

An operand is abstracted to classes of states (its initial state, its final states, the others), with symbolic size and
symbolic letters; standard containers are modelled by what they hold.  Loops over a container run once per class.
What a function leaves behind is an automaton over classes and letters, compared as a language with what is specified.
"""
import functools, re
import bits
from bits import Bits, St, const, ival, top, isbits, named
from ctx import Broken
EPS = 257
RULES = ['-^std::vector<', '-^__gnu_cxx::', '-^Pire::Partition', '-^Pire::Fsm::(Determine|Minimize|Fsm|~Fsm|RemoveDeadEnds|DeadStates|DumpTo|DumpState)$',
         '+^Pire::Fsm::', '+^std::(transform|bind2nd|binder2nd|plus|inserter|insert_iterator|back_inserter|back_insert_iterator|for_each|function|accumulate)']
@functools.lru_cache(None)
def strip(d):
    out = ''; n = 0
    d = d.replace('operator<<', 'operator{{').replace('operator<', 'operator{').replace('operator->', 'operator~').replace('operator>', 'operator}')
    for c in d:
        if c == '<': n += 1
        elif c == '>': n -= 1
        elif n == 0: out += c
    return out.replace('operator~', 'operator->').replace('operator{', 'operator<')

# ---- numbers of states and letters: an int, or a sum of names and an int ('X', 'a+b', k)
def canon(v):
    if v is None: return None
    if v[0] == 'X': return v
    if isbits(v):
        n = ival(v)
        if n is not None: return n
        while v and v[-1] == 0: v = v[:-1]
        return v
    return v
def addx(a, b):
    """sum of two canonical numbers"""
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int): return ('X', a[1], a[2] + b) if a[0] == 'X' else None
    if a[0] == 'X' and b[0] == 'X': return ('X', '+'.join(sorted(a[1].split('+') + b[1].split('+'))), a[2] + b[2])
    return None
def subx(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int): return ('X', a[1], a[2] - b) if a[0] == 'X' else None
    if isinstance(a, int) or a[0] != 'X' or b[0] != 'X': return None
    l = a[1].split('+')
    for s in b[1].split('+'):
        if s not in l: return None
        l.remove(s)
    k = a[2] - b[2]
    return ('X', '+'.join(l), k) if l else k
def name(k):
    if isinstance(k, int): return str(k)
    if k and k[0] == 'X': return k[1] + ('%+d' % k[2] if k[2] else '')
    return 'letter<%s>' % ','.join('%s%s' % (b[1], b[2]) if isinstance(b, tuple) else str(b) for b in k)
def show(k): return name(k)

END = ('end',)
ROOT = re.compile(r'#?([^+{]*)')
class Mem(dict):
    """memory, with the keys of each object at hand"""
    def __init__(self): dict.__init__(self); self.roots = {}
    def __setitem__(self, k, v):
        if k not in self: self.roots.setdefault(ROOT.match(k[0]).group(1), set()).add(k)
        dict.__setitem__(self, k, v)
    def __delitem__(self, k): self.roots[ROOT.match(k[0]).group(1)].discard(k); dict.__delitem__(self, k)
    def update(self, d):
        for k, v in d.items(): self[k] = v
    def copy(self):
        n = Mem(); dict.update(n, self); n.roots = {r: set(s) for r, s in self.roots.items() if s}; return n
    def of(self, b): return list(self.roots.get(ROOT.match(b).group(1), ()))
class Vec(tuple):
    """(segments): each (start, size, reps)"""
class Machine(Bits):
    nounwind = True; merge = False
    def __init__(self, m, fn, params, shared, depth=0, **kw):
        self.sh = shared; self.depth = depth; self.frame = shared['frame'] = shared.get('frame', 0) + 1
        Bits.__init__(self, m, fn, params, **kw)
    # ---------- values
    def val(self, k, w=64):
        if isinstance(k, int): return const(k & ((1 << w) - 1), w)
        if k[0] == 'X': return k
        return k + (0,) * (w - len(k)) if isbits(k) else k
    def addr(self, p):
        if not p or p[0] != 'P' or p[2] is None: raise Broken('a container at an unknown place in ' + self.f.qname)
        return '%s+%d' % (p[1], p[2])
    def get(self, st, a, kind):
        e = st.mem.get(('#' + a, 0))
        if e is None: return () 
        return e[1][1]
    def put(self, st, a, kind, v): st.mem[('#' + a, 0)] = (0, (kind, v))
    def elem(self, a, k):
        s = '%s{%s}' % (a, name(k)); self.sh['keys'][s] = k; return s
    def drop(self, st, prefix):
        for k in [k for k in st.mem.of(prefix) if k[0].startswith(prefix) or k[0].startswith('#' + prefix)]: del st.mem[k]
    def copy(self, st, src, dst, width=None):
        """copies the object (and everything nested) at address string src to dst"""
        (sb, so), (db, do) = (x.rsplit('+', 1) for x in (src, dst)); so, do = int(so), int(do)
        if src == dst: return
        add = {}; pre = src
        def covered(off): return off == so if width is None else so <= off < so + width
        for k in st.mem.of(src):
            e = st.mem[k]; b, o = k
            h = b.startswith('#'); b = b[1:] if h else b
            r = re.match(r'(\+(-?\d+))(.*)$', b[len(sb):], re.S) if b.startswith(sb) else None
            if b == sb and not h:
                if width is not None and covered(o): add[(db, o - so + do)] = e
                continue
            if r and covered(int(r.group(2))):
                nb = '%s+%d%s' % (db, int(r.group(2)) - so + do, r.group(3))
                if '{' in b and b in self.sh['keys']: self.sh['keys'][nb] = self.sh['keys'][b]
                add[(('#' if h else '') + nb, o)] = e
        self.wipe(st, dst, width)
        st.mem.update(add)
    def wipe(self, st, dst, width=None):
        db, do = dst.rsplit('+', 1); do = int(do)
        for k in st.mem.of(dst):
            b = k[0][1:] if k[0].startswith('#') else k[0]
            if b == db and not k[0].startswith('#'):
                if width is not None and do <= k[1] < do + width: del st.mem[k]
                continue
            r = re.match(r'\+(-?\d+)', b[len(db):]) if b.startswith(db) else None
            if r and (int(r.group(1)) == do if width is None else do <= int(r.group(1)) < do + width): del st.mem[k]
    # ---------- memory
    def clobber(self, st, base, off, size):
        for (b, o) in [k for k in st.mem.of(base) if k[0] == base]:
            s, v = st.mem[(b, o)]
            if o < off + size and off < o + s:
                del st.mem[(b, o)]
                for k in range(s):
                    if not off <= o + k < off + size: st.mem[(b, o + k)] = (1, v[8 * k:8 * k + 8] if v is not None and isbits(v) else top(8))
    def rd(self, st, p, size, w):
        if p and p[0] == 'P' and p[2] == 0 and p[1] in self.sh['keys']: 
            if (p[1], 0) not in st.mem: return self.val(self.sh['keys'][p[1]], w or 64)
        return Bits.rd(self, st, p, size, w)
    def simple(self, st, i, o, a, w):
        if o == 'alloca': st.env[i['i']] = ('P', '%%%d.%d' % (self.frame, i['i']), 0); return
        if o in ('zext', 'trunc', 'sext'):
            x = self.op(st, a[0], i.get('ow') or 64)
            if x is not None and x[0] == 'X': st.env[i['i']] = x; return
        if o == 'extractvalue':
            x = self.op(st, a[0]); 
            if x is not None and x[0] == 'PR': st.env[i['i']] = x[1 + i['ix'][0]]; return
        Bits.simple(self, st, i, o, a, w)
    def bin(self, o, x, y, w):
        if x is not None and y is not None and (x[0] == 'X' or y[0] == 'X') and o in ('add', 'sub'):
            cx, cy = canon(x), canon(y)
            if isinstance(cx, int) and cx >> (w - 1): cx -= 1 << w
            if isinstance(cy, int) and cy >> (w - 1): cy -= 1 << w
            r = (addx if o == 'add' else subx)(cx, cy)
            return top(w) if r is None else self.val(r, w)
        return Bits.bin(self, o, x, y, w)
    def ordinal(self, k):
        """position among the representatives: every symbolic size counts the three representatives it stands for"""
        if isinstance(k, int): return k
        if k[0] == 'X' and all(re.fullmatch('n[A-Z]', x) for x in k[1].split('+')): return 3 * len(k[1].split('+')) + k[2]
        return None
    def cmp(self, st, p, a, b, w):
        if a and b:
            if a[0] == 'X' or b[0] == 'X':
                ca, cb = canon(a), canon(b)
                if isinstance(ca, int) and ca >> (w - 1): ca -= 1 << w
                if isinstance(cb, int) and cb >> (w - 1): cb -= 1 << w
                oa, ob = self.ordinal(ca), self.ordinal(cb)
                if p in ('eq', 'ne'):
                    r = ca == cb if oa is None or ob is None else oa == ob
                    return r if p == 'eq' else not r
                if p in bits.SW: p, oa, ob = bits.SW[p], ob, oa
                if oa is None and ob is None and ca[0] == cb[0] == 'X' and ca[1][0] == cb[1][0] == 't': oa, ob = ca[1], cb[1]   # letters are in some order
                if oa is None or ob is None: raise Broken('cannot compare %s with %s in %s' % (show(ca), show(cb), self.f.qname))
                return {'ult': oa < ob, 'ule': oa <= ob, 'slt': oa < ob, 'sle': oa <= ob}.get(p)
            if a[0] in ('IT', 'VI') or b[0] in ('IT', 'VI'): return (a == b) if p == 'eq' else None
        return Bits.cmp(self, st, p, a, b, w)
    def number(self, st, a, k):
        """the canonical name of element k of the vector at a"""
        l = self.vlist(st, a)
        if k in l: return k
        o = self.ordinal(k) if k is not None else None
        return l[o] if o is not None and 0 <= o < len(l) else k
    # ---------- vectors
    def segs(self, st, a): return self.get(st, a, 'vec') or ()
    def vsize(self, st, a):
        s = 0
        for start, size, reps in self.segs(st, a): s = addx(s, size)
        return s
    def vlist(self, st, a): return [r for start, size, reps in self.segs(st, a) for r in reps]
    def vfind(self, st, a, k):
        """ordinal of the element numbered k"""
        k = self.number(st, a, k); l = self.vlist(st, a)
        if k in l: return l.index(k)
        n = 0
        for start, size, reps in self.segs(st, a):
            if start == k: return n
            n += len(reps)
        if k == self.vsize(st, a): return len(l)
        return None
    def vat(self, st, a, k):
        k = self.number(st, a, k); l = self.vlist(st, a)
        if k not in l: self.sh['bad'].append('uses state %s, which does not exist' % show(k)); raise Stop()
        return ('P', self.elem(a, k), 0)
    def resize(self, st, a, n):
        cur = self.vsize(st, a); segs = self.segs(st, a)
        if cur == n: return
        d = subx(n, cur)
        if isinstance(d, int) and d > 0:
            segs += tuple((addx(cur, j), 1, (addx(cur, j),)) for j in range(d))
        elif d is not None and not isinstance(d, int) and d[0] == 'X':
            known = next((reps for size, reps, start in self.sh['sizes'] if ('X', d[1], 0) == size and start == 0), None)
            if known is None: raise Broken('resized by an unknown amount')
            segs += ((cur, ('X', d[1], 0), tuple(addx(cur, r) for r in known)),)
            self.sh['sizes'].append((('X', d[1], 0), tuple(addx(cur, r) for r in known), cur))
            if d[2] > 0: segs += tuple((addx(addx(cur, ('X', d[1], 0)), j), 1, (addx(addx(cur, ('X', d[1], 0)), j),)) for j in range(d[2]))
            elif d[2] < 0: raise Broken('resized by an unknown amount')
        else: raise Broken('a vector shrinks by %s' % (d,))
        self.put(st, a, 'vec', segs)
    # ---------- calls
    def call(self, st, i, w):
        f = i.get('f') or ''; fn = self.m.fns.get(f); d = strip(fn.dname) if fn is not None else f
        if self.sh.get('trace'): print(' ' * self.depth, i['i'], d[:90])
        A = lambda n: self.op(st, i['a'][n])
        hook = self.sh.get('hook')
        if hook:
            r = hook(self, st, i, d, A)
            if r is not None: return None if r == 'void' else r
        if f in ('__cxa_throw',): return 'noreturn'
        if f.startswith('__cxa') or d.startswith(('std::runtime_error', 'Pire::Error', 'operator delete', 'operator new', 'std::__new_allocator', 'std::allocator', 'std::__cxx11')): return ('P', '%exc', 0)
        if i.get('intr'): return Bits.call(self, st, i, w)
        c = re.match(r'(?:.* )?std::(set|map|vector)::([~\w]+|operator\S*?)\((.*)\)', d)
        if c: return self.container(st, i, c.group(1), c.group(2), c.group(3), fn.dname, A, w)
        c = re.match(r'(?:bool )?(?:(?:std|__gnu_cxx)::)(?:(?:_Rb_tree_const_iterator|_Rb_tree_iterator|__normal_iterator)::)?(operator\s*\S+?|_Rb_tree_const_iterator|_Rb_tree_iterator|__normal_iterator|base)\((.*)\)', d)
        if c: return self.iterator(st, i, c.group(1), c.group(2), A, d)
        if 'Pire::Partition::' in d: return self.partition(st, i, re.search(r'Partition::([~\w]+|operator.*?)\((.*)\)', d), A, w)
        if re.match(r'Pire::Fsm::Fsm\(Pire::Fsm (const&|&&)\)', d):
            self.copy(st, self.addr(A(1)), self.addr(A(0)), self.sh['fsmsize']); return None
        if re.match(r'Pire::Fsm::operator=\(Pire::Fsm (const&|&&)\)', d):
            self.copy(st, self.addr(A(1)), self.addr(A(0)), self.sh['fsmsize']); return A(0)
        if d.startswith('Pire::Fsm::~Fsm('): self.wipe(st, self.addr(A(0)), self.sh['fsmsize']); return None
        if d.startswith('Pire::Fsm::Minimize('): return None
        if d.startswith('Pire::Fsm::DeadStates('):
            A = extract(self, st, self.baseof(A(1)), self.sh['L']); self.put(st, self.addr(op0(self, st, i)), 'set', tuple(sorted(dead(A), key=str))); return None
        if d.startswith('Pire::Fsm::RemoveDeadEnds('): self.prune(st, self.baseof(A(0))); return None
        if d.startswith('Pire::Fsm::Determine('):
            if self.sh.get('toomany'): return const(0, 1)
            self.determine(st, self.baseof(A(0))); return const(1, 1)
        if d.startswith('Pire::') and 'Singleton' in d: self.put(st, '@default+0', 'set', ()); return ('P', '@default', 0)
        if fn is not None and not fn.decl and fn.qname.startswith(('Pire::', 'std::')): return self.nested(st, i, fn)
        if re.match(r'std::(set|map|vector)', d): raise Broken('unmodelled ' + d)
        raise Broken('unmodelled call of %s in %s' % (d, self.f.qname))
    def baseof(self, p):
        if p[2] != 0: raise Broken('an automaton inside another object')
        return p[1]
    def prune(self, st, base):
        A = extract(self, st, base, self.sh['L']); rows = '%s+%d' % (base, self.sh['L']['m_transitions']); gone = dead(A)
        for r in self.vlist(st, rows):
            row = self.elem(rows, r) + '+0'
            if self.ordinal(r) in gone: self.wipe(st, row); self.put(st, row, 'map', ()); continue
            for c in self.get(st, row, 'map'):
                s = self.elem(row, c) + '+8'; self.put(st, s, 'set', tuple(t for t in self.get(st, s, 'set') if self.ordinal(t) not in gone))
        for n in ('determined', 'isAlternative'): st.mem[(base, self.sh['L'][n])] = (1, const(0, 8))
    def determine(self, st, base):
        """what determinization promises: a complete deterministic automaton of the same language"""
        L = self.sh['L']; A = extract(self, st, base, L); alphabet = self.sh.get('alphabet')
        if alphabet is None: raise Broken('an operation determines its operand')
        ix = Nfa(A.edges, {A.initial}, A.final).index(); s0 = closure(ix, {A.initial}); num = {s0: 0}; todo = [s0]; edges = {}
        while todo:
            s = todo.pop(0)
            for x in alphabet:
                t = closure(ix, {v for q in s for v in ix.get(q, {}).get(x, ())})
                if t not in num: num[t] = len(num); todo.append(t)
                edges[num[s], x] = num[t]
        self.wipe(st, base + '+0', self.sh['fsmsize'])
        rows = '%s+%d' % (base, L['m_transitions']); self.put(st, rows, 'vec', tuple((k, 1, (k,)) for k in range(len(num))))
        for k in range(len(num)):
            row = self.elem(rows, k) + '+0'; self.put(st, row, 'map', tuple(alphabet))
            for x in alphabet: self.put(st, self.elem(row, x) + '+8', 'set', (edges[k, x],))
        st.mem[(base, L['initial'])] = (8, const(0, 64))
        self.put(st, '%s+%d' % (base, L['m_final']), 'set', tuple(n for s, n in num.items() if s & A.final))
        for n, v in (('determined', 1), ('isAlternative', 0), ('m_sparsed', 0)): st.mem[(base, L[n])] = (1, const(v, 8))
        for n, k in (('letters', 'part'), ('tags', 'map'), ('outputs', 'map')): self.put(st, '%s+%d' % (base, L[n]), k, ())
    def nested(self, st, i, fn):
        if self.depth > 6: raise Broken('recursion in ' + fn.qname)
        outs = []
        r = Machine(self.m, fn, [self.op(st, x) for x in i['a']], self.sh, self.depth + 1, load=self.hload, ret=lambda run, s, v, ins: outs.append((s, v)))
        s0 = St({}, st.mem, st.facts, st.log); r.run(s0)
        if not outs: return 'noreturn'
        fork = []
        for s, v in outs:
            n = St(dict(st.env), s.mem, s.facts, s.log); fork.append((n, v))
        return ('fork', fork)
    def key(self, st, p, size=8):
        """the key stored at p"""
        if p and p[0] == 'P':
            e = st.mem.get((p[1], p[2])) if p[2] is not None else None
            v = e[1] if e is not None else self.rd(st, p, size, 64)
            if v is not None and (not isbits(v) or all(b is not None for b in v)):
                k = canon(v); o = self.ordinal(k)
                return k if o is None else o
        raise Broken('a key that is not known in ' + self.f.qname)
    def container(self, st, i, kind, meth, args, full, A, w):
        a = self.addr(A(0)) if i['a'] else None
        if meth in ('set', 'map', 'vector'):
            src = re.match(r'std::(?:set|map|vector)(?: const)?(&&|&)', args)
            if src:
                self.copy(st, self.addr(A(1)), a)
                if '&&' in args.split(',')[0]: self.wipe(st, self.addr(A(1)))
                return None
            self.wipe(st, a); self.put(st, a, kind if kind != 'vector' else 'vec', ())
            if kind == 'vector' and args.startswith('unsigned long'): self.resize(st, a, canon(A(1)))
            elif args not in ('',) and not args.startswith(('std::allocator', 'std::less')): raise Broken('unmodelled constructor %s(%s)' % (meth, args))
            return None
        if meth.startswith('~'): self.wipe(st, a); return None
        if meth == 'operator=':
            b = self.addr(A(1)); self.copy(st, b, a)
            return A(0)
        if meth == 'swap':
            b = self.addr(A(1)); t = '%%swap%d+0' % i['i']
            self.copy(st, a, t); self.copy(st, b, a); self.copy(st, t, b); self.wipe(st, t); return None
        if kind == 'vector':
            if meth == 'size': return self.val(self.vsize(st, a))
            if meth == 'empty': return const(int(self.vsize(st, a) == 0), 1)
            if meth in ('begin', 'cbegin', 'end', 'cend'): return ('VI', a, 0 if 'begin' in meth else len(self.vlist(st, a)))
            if meth in ('operator[]', 'at'): return self.vat(st, a, canon(A(1)))
            if meth == 'resize': self.resize(st, a, canon(A(1))); return None
            if meth in ('back', 'front'):
                l = self.vlist(st, a)
                return ('P', self.elem(a, l[-1 if meth == 'back' else 0]), 0)
            if meth == 'clear': self.wipe(st, a); self.put(st, a, 'vec', ()); return None
            if meth == 'reserve': return None
            raise Broken('unmodelled std::vector::%s(%s)' % (meth, args))
        c = list(self.get(st, a, kind))
        if meth in ('begin', 'cbegin'): return ('IT', a, c[0] if c else END)
        if meth in ('end', 'cend'): return ('IT', a, END)
        if meth == 'size': return const(len(c), 64)
        if meth == 'empty': return const(int(not c), 1)
        if meth == 'clear': self.wipe(st, a); self.put(st, a, kind, ()); return None
        if meth in ('find', 'count', 'contains'):
            k = self.key(st, A(1)); self.state(k)
            if meth == 'find': return ('IT', a, k if k in c else END)
            return const(int(k in c), 64 if meth == 'count' else 1)
        if meth == 'erase':
            x = A(1)
            if x and x[0] == 'IT': k = x[2]
            elif 'iterator' in args: raise Broken('unmodelled erase')
            else: k = self.key(st, x)
            nx = END
            if k in c:
                n = c.index(k); nx = c[n + 1] if n + 1 < len(c) else END
                c.remove(k); self.put(st, a, kind, tuple(c)); self.drop(st, '%s{%s}' % (a, name(k)))
            return ('IT', a, nx) if x and x[0] == 'IT' else const(1, 64)
        if meth in ('insert', 'emplace') and kind == 'set':
            if 'iterator' in args and args.count('iterator') >= 2 and 'unsigned' not in args.split('iterator', 2)[2]: # range
                raise Broken('unmodelled set insertion of a range')
            k = self.key(st, A(2 if 'iterator' in args else 1))
            new = int(k not in c)
            if new: self.put(st, a, 'set', tuple(c + [k]))
            return ('PR', ('IT', a, k), const(new, 8)) if (i.get('t') or '').startswith('{') else ('IT', a, k)
        if meth in ('insert', 'emplace') and kind == 'map' and len(i['a']) == 2:
            p = A(1); k = self.key(st, p); new = int(k not in c)
            if new:
                self.put(st, a, 'map', tuple(c + [k])); e = self.elem(a, k)
                self.copy(st, '%s+%d' % (p[1], p[2] + 8), e + '+8')
                x = st.mem.get((p[1], p[2] + 8))
                if x: st.mem[(e, 8)] = x
            return ('PR', ('IT', a, k), const(new, 8)) if (i.get('t') or '').startswith('{') else ('IT', a, k)
        if meth in ('operator[]', 'at') and kind == 'map':
            k = self.key(st, A(1)); e = self.elem(a, k)
            if k not in c:
                self.put(st, a, 'map', tuple(c + [k]))
                if 'TSet' not in full.split('::operator')[0] and full.count('TMap') < 1 and (e, 8) not in st.mem: st.mem[(e, 8)] = (8, const(0, 64))
            return ('P', e, 8)
        raise Broken('unmodelled std::%s::%s(%s)' % (kind, meth, args))
    def state(self, k): pass
    def itval(self, st, p):
        if p and p[0] in ('IT', 'VI'): return p
        if p and p[0] == 'P' and p[2] is not None:
            e = st.mem.get((p[1], p[2]))
            if e and e[1] and e[1][0] in ('IT', 'VI'): return e[1]
        raise Broken('an iterator that is not known in ' + self.f.qname)
    def move(self, st, it, n):
        if it[0] == 'VI':
            k = canon(n) if not isinstance(n, int) else n
            if isinstance(k, int):
                if k >= 1 << 63: k -= 1 << 64
                return ('VI', it[1], it[2] + k)
            if it[2] != 0: raise Broken('iterator moved by an unknown distance')
            o = self.vfind(st, it[1], k)
            if o is None: self.sh['bad'].append('an iterator is moved to %s, where no state begins' % show(k)); raise Stop()
            return ('VI', it[1], o)
        l = self.items(st, it[1])
        if n == 1:
            if it[2] == END: self.sh['bad'].append('an iterator is moved past the end'); raise Stop()
            j = l.index(it[2]) + 1
            return ('IT', it[1], l[j] if j < len(l) else END)
        if n == -1:
            j = (l.index(it[2]) if it[2] != END else len(l)) - 1
            if j < 0: self.sh['bad'].append('an iterator is moved before the beginning'); raise Stop()
            return ('IT', it[1], l[j])
        raise Broken('iterator moved by an unknown distance')
    def items(self, st, a):
        e = st.mem.get(('#' + a, 0))
        if e is None: return []
        return list(x[0] for x in e[1][1]) if e[1][0] == 'part' else list(e[1][1])
    def iterator(self, st, i, meth, args, A, d):
        meth = meth.replace(' ', '')
        if meth in ('operator!=', 'operator=='):
            r = self.itval(st, A(0)) == self.itval(st, A(1))
            return const(int(r == (meth == 'operator==')), 1)
        if meth in ('_Rb_tree_const_iterator', '_Rb_tree_iterator', '__normal_iterator'):
            st.mem[(A(0)[1], A(0)[2])] = (8, self.itval(st, A(1))); return None
        it = self.itval(st, A(0))
        if meth in ('operator*', 'operator->'):
            if it[0] == 'VI':
                l = self.vlist(st, it[1])
                if not 0 <= it[2] < len(l): self.sh['bad'].append('an iterator at the end is used'); raise Stop()
                return ('P', self.elem(it[1], l[it[2]]), 0)
            if it[2] == END: self.sh['bad'].append('an iterator at the end is used'); raise Stop()
            return ('P', self.elem(it[1], it[2]), 0)
        if meth in ('operator++', 'operator--'):
            n = self.move(st, it, 1 if meth == 'operator++' else -1); p = A(0)
            if p[0] == 'P': st.mem[(p[1], p[2])] = (8, n)
            return it if 'int' in args else p
        if meth in ('operator+', 'operator+=', 'operator-', 'operator-='):
            y = A(1)
            if meth == 'operator-' and y is not None and (y[0] == 'P' or y[0] == 'VI'):
                o = self.itval(st, y); l = self.vlist(st, it[1])
                if o[1] != it[1] or o[2] != 0: raise Broken('distance between iterators')
                return self.val(l[it[2]] if it[2] < len(l) else self.vsize(st, it[1]))
            n = canon(y); n = -n if meth.startswith('operator-') and isinstance(n, int) else n
            if meth.startswith('operator-') and not isinstance(n, int): raise Broken('iterator moved back by an unknown distance')
            r = self.move(st, it, n)
            if meth.endswith('='): st.mem[(A(0)[1], A(0)[2])] = (8, r); return A(0)
            return r
        raise Broken('unmodelled iterator operation ' + d)
    def partition(self, st, i, mt, A, w):
        meth, args = mt.group(1), mt.group(2)
        a = self.addr(A(0))
        if meth == 'Partition':
            if args.startswith('Pire::Partition'): self.copy(st, self.addr(A(1)), a)
            else: self.wipe(st, a); self.put(st, a, 'part', ())
            return None
        if meth.startswith('~'): self.wipe(st, a); return None
        if meth == 'operator=': self.copy(st, self.addr(A(1)), a); return A(0)
        c = self.get(st, a, 'part')
        if meth in ('begin', 'Begin'): return ('IT', a, c[0][0] if c else END)
        if meth in ('end', 'End'): return ('IT', a, END)
        if meth in ('Empty',): return const(int(not c), 1)
        if meth in ('Append',):
            k = self.key(st, A(1), 2)
            if not any(k in x[1] for x in c): self.put(st, a, 'part', c + ((k, (k,)),)); self.klass(st, a, k, (k,))
            return None
        if meth == 'Representative':
            k = self.key(st, A(1), 2); r = next((x[0] for x in c if k in x[1]), k)
            e = self.elem('%rep+0', r); return ('P', e, 0)
        raise Broken('unmodelled Partition::' + meth)
    def klass(self, st, a, rep, chars):
        """the element of a class table: pair<Char, pair<size_t, vector<Char>>>"""
        v = self.elem(a, rep) + '+16'
        self.put(st, v, 'vec', tuple((c, 1, (c,)) for c in chars))
class Stop(Exception): pass
def op0(run, st, i): return run.op(st, i['a'][0])
def dead(A):
    n = A.count; out = set()
    for edges, start in ((A.edges, {A.initial}), ({(v, x, u) for u, x, v in A.edges}, A.final)):
        seen = set(start); ch = True
        while ch:
            new = {v for u, x, v in edges if u in seen} - seen; ch = bool(new); seen |= new
        out |= set(range(n)) - seen
    return out

class Automaton:
    """what a function left behind"""
    def __init__(self, edges, initial, final, flags, tags, outs, size): self.edges, self.initial, self.final, self.flags, self.tags, self.outs, self.size = edges, initial, final, flags, tags, outs, size
def layout(m):
    c = m.classes.get('Pire::Fsm')
    if c is None: raise Broken('no layout of Fsm')
    o = {}
    for x in c['members']: n = re.split(r'[.\[]', x['n'])[0]; o[n] = min(o.get(n, 1 << 60), x['o'])
    return o, c['size']
def extract(run, st, base, L):
    o = L
    rows = '%s+%d' % (base, o['m_transitions']); edges = set()
    def num(k):
        n = run.ordinal(k) if k is not None else None
        if n is None: raise Broken('a state whose number is not known')
        return n
    sparse = ival(run.rd(st, ('P', base, o['m_sparsed']), 1, 8))
    part = run.get(st, '%s+%d' % (base, o['letters']), 'part')
    for r in run.vlist(st, rows):
        row = run.elem(rows, r) + '+0'
        for c in run.get(st, row, 'map'):
            for t in run.get(st, run.elem(row, c) + '+8', 'set'):
                for x in (next((k[1] for k in part if k[0] == c), (c,)) if sparse else (c,)): edges.add((num(r), x, num(t)))
    ini = num(canon(run.rd(st, ('P', base, o['initial']), 8, 64)))
    fin = {num(k) for k in run.get(st, '%s+%d' % (base, o['m_final']), 'set')}
    flags = {n: ival(run.rd(st, ('P', base, o[n]), 1, 8)) for n in ('determined', 'isAlternative', 'm_sparsed')}
    tags = {}
    tm = '%s+%d' % (base, o['tags'])
    for k in run.get(st, tm, 'map'): tags[num(k)] = canon(run.rd(st, ('P', run.elem(tm, k), 8), 8, 64))
    outs = {}; om = '%s+%d' % (base, o['outputs'])
    for k in run.get(st, om, 'map'):
        inner = run.elem(om, k) + '+8'
        for k2 in run.get(st, inner, 'map'): outs[num(k), num(k2)] = canon(run.rd(st, ('P', run.elem(inner, k2), 8), 8, 64))
    A = Automaton(edges, ini, fin, flags, tags, outs, run.vsize(st, rows)); A.count = len(run.vlist(st, rows)); return A
class Operand:
    """an abstract operand: classes of states and the edges there may be between them"""
    def __init__(self, p, nullable=False, alt=False, sparse=False, det=False, stray=None):
        self.p = p; self.n = ('X', 'n' + p, 0)
        self.M, self.I, self.F = M, I, F = 0, 1, 2
        self.reps = (M, I, F); self.initial = I; self.sparse, self.det, self.alt = sparse, det, alt
        self.final = {F} | ({I} if nullable else set())
        T = lambda u, v: ('X', 't%s:%d>%d' % (p, u, v), 0)
        self.rowedges = set(); self.classes = ()
        if alt: self.rowedges.add((I, EPS, M))
        for u in self.reps:
            for v in self.reps:
                if alt and I in (u, v): continue
                if u != v and (stray == 'no way in' and v == M or stray == 'no way out' and u == M): continue
                self.rowedges.add((u, T(u, v), v))
        if not sparse and not det and not stray: self.rowedges.add((M, EPS, F))
        if sparse:
            self.classes = tuple((t, (t, ('X', t[1] + "'", 0))) for _, t, _ in sorted(self.rowedges, key=str) if t != EPS)
            self.rowedges.add((self.M if alt else self.I, 0, self.M)); self.rowedges.add((self.F, 97, self.M))
            self.classes += ((0, tuple(x for x in range(264) if x not in (97, 98, EPS))), (97, (97, 98)))
        self.tags = {self.F: ('X', 'tag' + p, 0)}
        self.outs = {(self.M, self.F): ('X', 'out' + p, 0), (self.I, self.M): ('X', 'out2' + p, 0)} if not alt else {}
    def edges(self):
        mates = dict(self.classes)
        return {(u, x, v) for u, t, v in self.rowedges for x in mates.get(t, (t,))}
    def store(self, run, st, base, L):
        rows = '%s+%d' % (base, L['m_transitions'])
        run.put(st, rows, 'vec', ((0, self.n, self.reps),))
        run.sh['sizes'].append((self.n, self.reps, 0))
        for r in self.reps:
            row = run.elem(rows, r) + '+0'; ks = []
            for u, t, v in sorted(self.rowedges, key=str):
                if u != r: continue
                if t not in ks: ks.append(t)
                s = run.elem(row, t) + '+8'; run.put(st, s, 'set', run.get(st, s, 'set') + (v,))
            run.put(st, row, 'map', tuple(ks))
        st.mem[(base, L['initial'])] = (8, run.val(self.initial))
        run.put(st, '%s+%d' % (base, L['m_final']), 'set', tuple(sorted(self.final, key=str)))
        for n, v in (('determined', self.det), ('isAlternative', self.alt), ('m_sparsed', self.sparse)): st.mem[(base, L[n])] = (1, const(int(v), 8))
        pa = '%s+%d' % (base, L['letters']); run.put(st, pa, 'part', self.classes)
        for t, cs in self.classes: run.klass(st, pa, t, cs)
        tm = '%s+%d' % (base, L['tags']); run.put(st, tm, 'map', tuple(self.tags))
        for k, v in self.tags.items(): st.mem[(run.elem(tm, k), 8)] = (8, v)
        om = '%s+%d' % (base, L['outputs']); run.put(st, om, 'map', tuple(sorted({k[0] for k in self.outs})))
        for (k, k2), v in self.outs.items():
            inner = run.elem(om, k) + '+8'; run.put(st, inner, 'map', run.get(st, inner, 'map') + (k2,)); st.mem[(run.elem(inner, k2), 8)] = (8, v)
class Table(Operand):
    """a complete deterministic operand over an alphabet shared with others"""
    def __init__(self, p, rows, nullable=False):
        Operand.__init__(self, p, nullable, det=True); self.rowedges = rows; self.outs = {}; self.tags = {}
def pair(p, q):
    """two operands over one alphabet, in which each letter acts on each of them as one of the maps that generate all maps"""
    gens = ((0, 1, 2), (1, 2, 0), (1, 0, 2), (0, 0, 2)); rows = (set(), set())
    for i, f in enumerate(gens):
        for j, g in enumerate(gens):
            x = ('X', 't%d.%d' % (i, j), 0)
            for u in range(3): rows[0].add((u, x, f[u])); rows[1].add((u, x, g[u]))
    return rows, [('X', 't%d.%d' % (i, j), 0) for i in range(len(gens)) for j in range(len(gens))]
# ---- languages
class Nfa:
    def __init__(self, edges, starts, finals): self.edges, self.starts, self.finals = set(edges), set(starts), set(finals)
    def index(self):
        d = {}
        for u, x, v in self.edges: d.setdefault(u, {}).setdefault(x, set()).add(v)
        return d
def closure(ix, s):
    todo = list(s); s = set(s)
    while todo:
        for v in ix.get(todo.pop(), {}).get(EPS, ()):
            if v not in s: s.add(v); todo.append(v)
    return frozenset(s)
def differ(a, b, eps=EPS):
    """None if the languages are equal, otherwise a word in exactly one of them"""
    ia, ib = a.index(), b.index(); s = (closure(ia, a.starts), closure(ib, b.starts)); seen = {s: None}; todo = [s]
    while todo:
        s = todo.pop(0)
        fa, fb = bool(s[0] & a.finals), bool(s[1] & b.finals)
        if fa != fb:
            w = []; x = s
            while seen[x]: w.append(seen[x][1]); x = seen[x][0]
            return [show(k) for k in reversed(w)], fa
        ls = {x for i, n in ((ia, s[0]), (ib, s[1])) for q in n for x in i.get(q, {}) if x != EPS}
        for l in sorted(ls, key=str):
            n = tuple(closure(i, {v for q in t for v in i.get(q, {}).get(l, ())}) for i, t in ((ia, s[0]), (ib, s[1])))
            if n not in seen: seen[n] = (s, l); todo.append(n)
    return None
