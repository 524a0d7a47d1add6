"""D01: a compiled scanner has exactly the transitions, start, accepting and dead states of its automaton."""
import re, itertools
from common import norm
import bits
from bits import Bits, St, const, ival, top, isbits, named
from fsmops import Mem
from ctx import Broken
KINDS = ['Scanner', 'ScannerNoMask', 'NonrelocScanner', 'NonrelocScannerNoMask', 'Simple', 'Capturing']
LABEL = {'Simple': 'SimpleScanner', 'Capturing': 'CapturingScanner'}
RULES = ('-BuildShortcuts$', '+^Pire::Fsm::Compile', '-^Pire::Fsm::', '-^Pire::Partition', '-^Pire::CreateApproxFsm', '-::Null$', '-^std::(map|set|vector|_Rb_tree_const_iterator|_Rb_tree_iterator)', '+^std::(unique_ptr|__uniq_ptr_impl|__uniq_ptr_data|tuple|_Tuple_impl|_Head_base|default_delete|get|swap|move|forward|fill|__fill_a|__fill_a1)')
class Auto:
    """a canonical automaton: complete and deterministic over letter classes"""
    def __init__(self, dest, init, finals, dead, classes, tag=lambda s: 0):
        self.dest, self.init, self.finals, self.dead, self.classes, self.tag = dest, init, finals, dead, classes, tag
    def n(self): return len(self.dest)
    def cls(self, c): return next(k for k, cs in enumerate(self.classes) if c in cs)
def autos():
    al = range(260)
    a = [97, 98]; b = [0, 200, 255, 258, 259]
    three = [a, b, [c for c in al if c not in a and c not in b]]
    dest = [(1, 2, 0), (0, 0, 2), (2, 2, 2)]
    for finals, dead in (((), (2,)), ((0,), (2,)), ((0, 1), ()), ((2,), ()), ((1, 2), (0,)), ((0, 1, 2), ())):
        yield Auto(dest, 1, finals, dead, three)
    yield Auto([(0,)], 0, (0,), (), [list(al)])
    yield Auto([(0,)], 0, (), (0,), [list(al)])
    yield Auto([(3, 1), (0, 2), (1, 3), (2, 0)], 3, (2,), (), [[c for c in al if c & 1], [c for c in al if not c & 1]])
class B(Bits):
    nounwind = True; merge = False
    def cmp(self, st, p, a, b, w):
        if p == 'eq' and a and b and a[0] == b[0] == 'P' and a[1] != b[1] and (a[1][0] in 'bn[' or b[1][0] in 'bn['): return False
        return Bits.cmp(self, st, p, a, b, w)
    def bin(self, o, x, y, w):
        if o == 'and' and x and y and x[0] == 'P' and x[2] is not None and isbits(y):
            n = bits.sval(y)
            if n is not None and n < 0 and not (-n) & (-n - 1) and -n <= 16: return ('P', x[1], x[2] & n)        # new[] returns memory aligned to 16
        if o in ('udiv', 'sdiv') and isbits(x) and isbits(y) and ival(x) is not None and ival(y): return const(bits.sval(x) // ival(y), w)
        return Bits.bin(self, o, x, y, w)
    def clobber(self, st, base, off, size):
        for d in range(0, 16):
            for o in ((off + d,) if d < size else ()) + ((off - d,) if d else ()):
                e = st.mem.get((base, o))
                if e and o < off + size and off < o + e[0]:
                    s, v = e; del st.mem[(base, o)]
                    for k in range(s):
                        if not off <= o + k < off + size: st.mem[(base, o + k)] = (1, v[8 * k:8 * k + 8] if v is not None and isbits(v) else top(8))
    def byte(self, st, base, off):
        v = Bits.byte(self, st, base, off)
        return const(0, 8) if v is None and base in self.zero and not any((base, off - d) in st.mem and st.mem[(base, off - d)][0] > d for d in range(16)) else v
    zero = ()
ITER = re.compile(r'_ZN?K?St?\S*_Rb_tree_(const_)?iterator')
class World:
    """the automaton behind the opaque interface of Fsm, Partition, set and map iterators"""
    def __init__(self, a): self.a = a; self.log = []; self.unknown = []; self.zero = set(); self.news = 0; self.canon = False; self.dst = None
    def call(self, run, st, i, w):
        fn = i.get('f') or ''; intr = i.get('intr') or ''; A = self.a
        arg = lambda k: run.op(st, i['a'][k])
        num = lambda v: ival(v) if v is not None and isbits(v) else None
        def cell(k): p = arg(k); return run.rd(st, p, 8, 64)
        if intr.startswith('llvm.memset'):
            p, v, n = arg(0), ival(run.op(st, i['a'][1], 8)), num(arg(2))
            if p and p[0] == 'P' and p[1].startswith('buf') and v == 0 and n is not None:
                for k in [k for k in st.mem if k[0] == p[1] and p[2] <= k[1] < p[2] + n]: del st.mem[k]
                self.zero.add(p[1]); return 'void'
            return None
        if intr: return None
        if fn in ('_Znam', '_Znwm'): self.news += 1; return ('P', 'buf%d' % self.news, 0)
        if fn in ('_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm'): return 'void'
        if fn.endswith('4NullEv'): return ('P', 'null', 0)
        if 'BuildShortcuts' in fn: return 'void'
        m = re.match(r'_ZNK?4Pire3Fsm(\d+)(\w+)', fn)
        if m:
            n = int(m.group(1)); name = m.group(2)[:n]
            if name == 'Canonize': self.canon = True; self.log.append('canonize'); return 'void'
            if name in ('SetSize', 'Swap') : raise Broken('unmodelled ' + fn)
            if not self.canon and name in ('Size', 'Initial', 'Letters', 'Finals', 'IsFinal', 'Destinations', 'DeadStates', 'Tag', 'Output'): self.log.append('early ' + name)
            s = lambda k: self.state(num(arg(k)), name)
            if name == 'Size': return const(A.n(), 64)
            if name == 'Initial': return const(A.init, 64)
            if name == 'Letters': return ('P', '$letters', 0)
            if name == 'Finals': return ('P', '$set:' + ','.join(map(str, A.finals)), 0)
            if name == 'IsFinal': return const(int(s(1) in A.finals), 1)
            if name == 'Tag': return const(A.tag(s(1)), 64)
            if name == 'Output': x, y = s(1), s(2); return named('out%d.%d:' % (x, y), 64, 32)
            if name == 'Destinations':
                x = s(1); c = num(arg(2))
                if c is None: raise Broken('the letter of a transition is not known')
                return ('P', '$set:%d' % A.dest[x][A.cls(c)], 0)
            if name == 'DeadStates':
                run.wr(st, arg(0), 8, ('P', '$set:' + ','.join(map(str, A.dead)), 0), i); return 'void'
            if name == 'IsDetermined': return const(1, 1)
        if fn.startswith('_ZN4Pire3FsmaS'): self.log.append('assign %s' % (arg(1)[1] if arg(1) and arg(1)[0] == 'P' else '?')); return arg(0)
        if re.match(r'_ZN4Pire3Fsm[CD][0-2]E', fn): 
            if 'C' in fn[12:14]: self.log.append('copy')
            return 'void'
        if 'CreateApproxFsm' in fn: self.log.append('approx %s' % num(arg(2))); self.tmp = arg(0)[1]; return 'void'
        if fn.startswith('_ZNK4Pire9PartitionI'):
            t = re.search(r'E(4SizeEv|5[bB]eginEv|3[eE]ndEv|4sizeEv)$', fn)
            if t: return {'4S': const(len(A.classes), 64), '4s': const(len(A.classes), 64), '5b': ('P', '$let', 0), '5B': ('P', '$let', 0), '3e': ('P', '$let', len(A.classes)), '3E': ('P', '$let', len(A.classes))}[t.group(1)[:2]]
            raise Broken('unmodelled ' + fn)
        if fn.startswith(('_ZNSt3setIm', '_ZNKSt3setIm')):
            if re.search(r'C[12]Ev$', fn): run.wr(st, arg(0), 8, ('P', '$set:', 0), i); return 'void'
            if re.search(r'D[012]Ev$', fn): return 'void'
            if re.search(r'(aSE|C[12]E)(OS\d*_|RKS\d*_)$', fn): run.wr(st, arg(0), 8, self.setof(run, st, arg(1)), i); return arg(0) if 'aSE' in fn else 'void'
            me = self.elems(self.setof(run, st, arg(0)))
            base = '$it:' + ','.join(map(str, me))
            if fn.endswith('4sizeEv'): return const(len(me), 64)
            if fn.endswith('5emptyEv'): return const(int(not me), 1)
            if re.search(r'(5beginEv|6cbeginEv)$', fn): return ('P', base, 0)
            if re.search(r'(3endEv|4cendEv)$', fn): return ('P', base, len(me))
            if re.search(r'(4findERKm|5countERKm)$', fn):
                p = arg(1); x = num(run.rd(st, p, 8, 64))
                if x is None: raise Broken('looks up an unknown state')
                if '5count' in fn: return const(int(x in me), 64)
                return ('P', base, me.index(x) if x in me else len(me))
            raise Broken('unmodelled ' + fn)
        if '_Rb_tree_const_iterator' in fn or '_Rb_tree_iterator' in fn:
            t = re.match(r'_ZSt(eq|ne)', fn)
            if t:
                x, y = cell(0), cell(1)
                if not x or not y or x[0] != 'P' or y[0] != 'P': raise Broken('unknown iterators')
                return const(int((x == y) == (t.group(1) == 'eq')), 1)
            it = cell(0)
            if not it or it[0] != 'P': raise Broken('unknown iterator')
            if re.search(r'(eqERKS\d*_|neERKS\d*_)$', fn): return const(int((it == cell(1)) == ('eqER' in fn)), 1)
            if re.search(r'ppEv$', fn): run.wr(st, arg(0), 8, ('P', it[1], it[2] + 1), i); return arg(0)
            if re.search(r'ppEi$', fn): run.wr(st, arg(0), 8, ('P', it[1], it[2] + 1), i); return it
            if re.search(r'(deEv|ptEv)$', fn):
                if it[1] == '$let':
                    if it[2] >= len(A.classes): raise Broken('an end iterator is dereferenced')
                    return ('P', '$class%d' % it[2], 0)
                xs = it[1][4:]; me = [int(x) for x in xs.split(',')] if xs else []
                if it[2] >= len(me): raise Broken('an end iterator is dereferenced')
                st.mem[('$elem%d' % me[it[2]], 0)] = (8, const(me[it[2]], 64)); return ('P', '$elem%d' % me[it[2]], 0)
            if re.search(r'C[12]E', fn): run.wr(st, arg(0), 8, cell(1) if len(i['a']) > 1 else None, i); return 'void'
            raise Broken('unmodelled ' + fn)
        t = re.match(r'_ZNK?St6vectorIt\S*?(5beginEv|3endEv|4sizeEv|ixEm|5emptyEv|4dataEv|5frontEv)$', fn)
        if t:
            p = arg(0); k = re.match(r'\$class(\d+)$', p[1]) if p and p[0] == 'P' else None
            if not k: raise Broken('unknown list of characters')
            k = int(k.group(1)); cs = A.classes[k]
            for j, c in enumerate(cs): st.mem.setdefault(('$chars%d' % k, 2 * j), (2, const(c, 16)))
            g = t.group(1)
            if g in ('5beginEv', '4dataEv', '5frontEv'): return ('P', '$chars%d' % k, 0)
            if g == '3endEv': return ('P', '$chars%d' % k, 2 * len(cs))
            if g == '4sizeEv': return const(len(cs), 64)
            if g == '5emptyEv': return const(int(not cs), 1)
            return ('P', '$chars%d' % k, 2 * num(arg(1)))
        if i.get('nr'): return None
        if fn.startswith(('_ZNSt6vector', '_ZNKSt6vector')) or 'allocator' in fn: return None if w else 'void'
        if fn == '__assert_fail': return None
        self.unknown.append(fn); return 'void' if not w else None
    def setof(self, run, st, p):
        if p and p[0] == 'P' and p[1].startswith('$set:'): return p
        v = run.rd(st, p, 8, 64)
        if v and v[0] == 'P' and v[1].startswith('$set:'): return v
        raise Broken('an unknown set of states')
    def elems(self, v): return [int(x) for x in v[1][5:].split(',')] if v[1][5:] else []
    def state(self, n, name):
        if n is None or n >= self.a.n(): raise Wrong('asks the automaton for %s of %s' % (name, 'an unknown state' if n is None else 'state %d of %d' % (n, self.a.n())))
        return n
class Wrong(Exception): pass
def classmem(m, st, a):
    """the entries of the letter table: representative, number, characters"""
    for k, cs in enumerate(a.classes):
        st.mem[('$class%d' % k, 0)] = (2, const(cs[0], 16)); st.mem[('$class%d' % k, 8)] = (8, const(k, 64))
def execute(m, fname, params, st, world, mem0=None):
    f = m.fns[fname]; outs = []
    def ret(run, st, v, ins): outs.append((st, v))
    def load(run, st, p, size, w):
        return None
    r = B(m, f, params, call=world.call, ret=ret, load=load, limit=60000); r.zero = world.zero
    try: r.run(st)
    except bits.Unsupported as e: raise Broken('%s: %s' % (fname, e))
    return outs
def strip(st): return St(mem=st.mem.copy())
def build(m, kind, a, dist=0):
    st = St(mem=Mem()); w = World(a); classmem(m, st, a)
    outs = execute(m, 'e_%s_compile' % kind, [('P', 'p0', 0), ('P', 'fsm', 0), const(dist, 64)], st, w)
    return w, outs
def check(ctx, m, kind, a):
    w, outs = build(m, kind, a); what = LABEL.get(kind, kind); bad = None
    if w.unknown: raise Broken('%s: compiling calls something unknown: %s' % (what, w.unknown[:2]))
    ctx.need(outs, '%s: compiling never returns' % what)
    st0 = outs[0][0]
    if len(outs) > 1 and any(o[0].mem != st0.mem for o in outs): raise Broken('%s: compiling takes several ways for one automaton' % what)
    if any(x.startswith('early') for x in w.log): return 'looks at the automaton (%s) before it is made canonical' % next(x for x in w.log if x.startswith('early'))[6:], 0
    def go(op, params, cellv=None):
        s = strip(st0)
        if cellv is not None: s.mem[('p1', 0)] = (8, cellv)
        r = execute(m, 'e_%s_%s' % (kind, op), params, s, w)
        if len(r) != 1: raise Broken('%s: %s takes several ways for one state' % (what, op))
        return r[0]
    P0, P1 = ('P', 'p0', 0), ('P', 'p1', 0)
    s, _ = go('init', [P0, P1]); start = s.mem.get(('p1', 0), (8, None))[1]
    if not known(start): return 'the start state is not determined', 0
    number = {start: a.init}; todo = [start]; n = 0; names = {a.init: start}
    while todo:
        p = todo.pop(); q = number[p]
        _, v = go('final', [P0, P1], p); n += 1
        if bit(v) != (q in a.finals): return '%s is reported as %saccepting' % (nm(q, a), '' if bit(v) else 'not ') if bit(v) is not None else 'whether %s accepts is not determined' % nm(q, a), n
        _, v = go('dead', [P0, P1], p); n += 1
        if bit(v) is None: return 'whether %s is dead is not determined' % nm(q, a), n
        if bit(v) and q not in a.dead: return '%s is reported as dead' % nm(q, a), n
        if not bit(v) and q in a.dead and kind.endswith(('Scanner', 'NoMask')): return '%s is not reported as dead' % nm(q, a), n
        if 'e_%s_stidx' % kind in m.fns:
            _, v = go('stidx', [P0, P1], p); n += 1
            if v is None or not isbits(v) or ival(v) != q: return '%s has number %s' % (nm(q, a), ival(v) if v is not None and isbits(v) else 'unknown'), n
        for k, cs in enumerate(a.classes):
            for c in sorted({cs[0], cs[len(cs) // 2], cs[-1]}):
                s, v = go('nextact' if kind == 'Capturing' else 'next', [P0, P1, const(c, 16)], p); n += 1
                x = s.mem.get(('p1', 0), (8, None))[1]; t = a.dest[q][k]
                if x is not None and isbits(x) and ival(x) == 0: x = None
                if not known(x): return 'from %s, character %d leads to no state that can be determined' % (nm(q, a), c), n
                if kind == 'Capturing' and (v is None or not isbits(v) or v[:32] != named('out%d.%d:' % (q, t), 32)): return 'from %s, character %d does not give the output of its transition' % (nm(q, a), c), n
                if x in number and number[x] != t or x not in number and t in names: return 'from %s, character %d leads to %s instead of %s' % (nm(q, a), c, nm(number[x], a) if x in number else 'no state of the automaton', nm(t, a)), n
                if x not in number: number[x] = t; names[t] = x; todo.append(x)
    return None, n
def known(v): return v is not None and len(v) == 3 and v[0] == 'P' and v[2] is not None and v[1].startswith('buf')
def bit(v):
    n = ival(v[:1]) if v is not None and isbits(v) else None
    return None if n is None else bool(n)
def nm(q, a): return 'state %d' % q
def run(ctx):
    n = 0
    for kind in KINDS:
        m = norm('^e_%s_(compile|init|next|nextact|final|dead|stidx)$' % kind, RULES)
        f = m.fns['e_%s_compile' % kind]; what = LABEL.get(kind, kind)
        for j, a in enumerate(autos()):
            try: bad, k = check(ctx, m, kind, a)
            except Wrong as e: bad, k = str(e), 0
            n += k
            ctx.decide('compiled', not bad, f.loc(), '%s, automaton %d (%d states, %d letters, accepting %s, dead %s): %s' % (what, j, a.n(), len(a.classes), list(a.finals), list(a.dead), bad or 'start, acceptance, deadness and every transition agree (%d questions)' % k))
        w, outs = build(m, kind, next(autos()), 2); log = [x for x in w.log if not x.startswith('copy')]
        ok = 'approx 2' in log and any(x.startswith('assign') for x in log) and log.index('approx 2') < next(k for k, x in enumerate(log) if x.startswith('assign')) < log.index('canonize') if 'canonize' in log and any(x.startswith('assign') for x in log) else False
        ctx.decide('distance', bool(ok), f.loc(), '%s: with a distance, the automaton is %s' % (what, 'widened by it before it is made canonical' if ok else 'not widened before it is made canonical: ' + ', '.join(log)))
    ctx.cov['questions'] = n
    ctx.explanation = 'abstract interpretation of the constructors over an opaque automaton, then of the matching operations over the table they leave behind'
    ctx.assumptions += ['Fsm::Canonize leaves a complete deterministic automaton (not decided here)']
