"""Counting scanners that keep lists of expression numbers: how an action changes the counts, and how gluing merges lists."""
import re, itertools
import bits
from bits import Bits, St, const, ival, top, isbits, named
from ctx import Broken
VEC = r'_ZNK?St6vectorIjSaIjEE'
METHODS = {'index': r'(ixEm|2atEm)$', 'push': r'(9push_backE(Oj|RKj)|12emplace_backI\S*)$', 'copy': r'C[12]E(RKS1_|OS1_)$', 'empty': r'C[12]Ev$', 'dtor': r'D[012]Ev$', 'size': r'4sizeEv$', 'isempty': r'5emptyEv$',
           'begin': r'(5beginEv|6cbeginEv|4dataEv|5frontEv)$', 'end': r'(3endEv|4cendEv)$', 'assign': r'6assignEmRKj$', 'fill': r'C[12]EmRKj\S*$', 'zeros': r'(C[12]EmRKS0_)$', 'resize': r'6resizeEm(RKj)?$', 'reserve': r'7reserveEm$',
           'clear': r'5clearEv$', 'back': r'4backEv$', 'set': r'aSE(RKS1_|OS1_)$'}
NEWLEN = ('#n', 0)
class Vectors:
    """vectors of numbers: length in ('<obj>#n', 0), elements in ('V<obj>', 4k); iterators that append hold the vector's address"""
    def obj(self, p):
        if p is None or p[0] != 'P' or p[2] is None: raise Broken('a vector at an unknown place')
        return '%s%+d' % (p[1], p[2])
    def make(self, st, p, vals):
        o = self.obj(p); st.mem[(o + '#n', 0)] = (8, const(len(vals), 64))
        for k, v in enumerate(vals): st.mem[('V' + o, 4 * k)] = (4, v)
    def length(self, st, o):
        e = st.mem.get((o + '#n', 0)); n = ival(e[1]) if e else None
        if n is None: raise Broken('a vector of unknown length: ' + o)
        return n
    def get(self, st, p): o = self.obj(p); return [st.mem.get(('V' + o, 4 * k), (4, top(32)))[1] for k in range(self.length(st, o))]
    def push(self, st, o, v):
        n = self.length(st, o); st.mem[('V' + o, 4 * n)] = (4, v if v is not None else top(32)); st.mem[(o + '#n', 0)] = (8, const(n + 1, 64))
    def call(self, run, st, i, w):
        f = i.get('f') or ''
        def val(x):                                   # a number passed by reference
            p = run.op(st, x); return run.rd(st, p, 4, 32) if p and p[0] == 'P' else (run.fix(p, 32) if p is not None and isbits(p) else top(32))
        if f.startswith('_ZSt13back_inserter') or re.match(r'_ZNSt20back_insert_iteratorI\S*C[12]ERS', f):
            if f.startswith('_ZSt13'): return run.op(st, i['a'][0])
            run.wr(st, run.op(st, i['a'][0]), 8, run.op(st, i['a'][1]), i); return 'void'
        if f.startswith('_ZNSt20back_insert_iterator'):
            it = run.op(st, i['a'][0])
            if re.search(r'aSE(Oj|RKj)$', f):
                v = run.rd(st, it, 8, 64); self.push(st, self.obj(v), val(i['a'][1])); return it
            if f.endswith('ppEi'): return run.rd(st, it, 8, 64)
            return it
        if re.match(r'_ZNK?S(t15__new_allocator|aI)', f): return 'void'
        m = re.match(VEC, f)
        if not m: return None
        k = next((k for k, r in METHODS.items() if re.search(r, f)), None)
        if k is None: raise Broken('unmodelled operation on a vector: ' + f)
        a = [run.op(st, x) for x in i['a']]; o = self.obj(a[0])
        num = lambda v: ival(v) if v is not None and isbits(v) else None
        if k == 'index':
            x = num(a[1]); n = self.length(st, o)
            if x is None: return ('P', 'V' + o + '[4*%s]' % bits.idxname(a[1]), 0)
            if x >= n: self.outside = self.outside or 'element %d of a vector of %d' % (x, n)
            return ('P', 'V' + o, 4 * x)
        if k == 'push': self.push(st, o, val(i['a'][1])); return 'void'
        if k in ('copy', 'set'):
            vals = self.get(st, a[1]); self.make(st, a[0], vals)
            if 'OS1_' in f: self.make(st, a[1], [])
            return a[0] if k == 'set' else 'void'
        if k in ('empty', 'clear'): self.make(st, a[0], []); return 'void'
        if k in ('dtor', 'reserve'): return 'void'
        if k == 'size': return const(self.length(st, o), 64)
        if k == 'isempty': return const(int(self.length(st, o) == 0), 1)
        if k == 'begin': return ('P', 'V' + o, 0)
        if k == 'end': return ('P', 'V' + o, 4 * self.length(st, o))
        if k == 'back': return ('P', 'V' + o, 4 * self.length(st, o) - 4)
        if k in ('assign', 'fill', 'zeros', 'resize'):
            n = num(a[1])
            if n is None or n > 64: raise Broken('a vector of unknown length')
            fresh = const(0, 32) if k == 'zeros' or k == 'resize' and not f.endswith('RKj') else val(i['a'][2])
            old = self.get(st, a[0]) if k == 'resize' else []
            self.make(st, a[0], (old + [fresh] * n)[:n]); return 'void'
        raise Broken(f)
    outside = None
def member(m, cls, name):
    o = [x['o'] for x in (m.classes.get(cls) or {}).get('members', []) if x['n'] == name or x['n'].startswith(name + '.')]
    if o: return min(o)
    raise Broken('%s has no %s' % (cls, name))
SC = 'Pire::NoGlueLimitCountingScanner'; STATE = 'Pire::NoGlueLimitCountingState'
class B(Bits):
    """Null() is some other image than the scanners at hand"""
    def cmp(self, st, p, a, b, w):
        if p == 'eq' and a and b and a[0] == b[0] == 'P' and ('[null' in a[1]) != ('[null' in b[1]): return False
        return Bits.cmp(self, st, p, a, b, w)
def offsets(m):
    return dict(acts=member(m, SC, 'Actions'), flag=member(m, SC, 'AdvancedScannerCompatibilityMode'), cur=member(m, STATE, 'm_current'), tot=member(m, STATE, 'm_total'),
                count=member(m, 'Pire::LoadedScanner', 'm.regexpsCount'), jumps=member(m, 'Pire::LoadedScanner', 'm_jumps'))
def entry(rs, incs): return [const(len(rs), 32)] + [const(x, 32) for x in rs] + [const(len(incs), 32)] + [const(x, 32) for x in incs]
def scanner(st, O, base, kind, count, at=0, entries=()):
    """a scanner of the given kind of action coding; entries: {action: (resets, increments)}"""
    st.mem[(base, at + O['flag'])] = (1, const(int(kind == 'mask'), 8)); st.mem[(base, at + O['count'])] = (4, const(count, 32))
    st.mem[(base, at + O['acts'])] = (8, ('P', base + '@acts', 0) if kind == 'list' else const(0, 64))
    for a, (rs, incs) in dict(entries).items():
        for k, v in enumerate(entry(rs, incs)): st.mem[(base + '@acts', 4 * (a + k))] = (4, v)
def sub(s): return [c for n in range(len(s) + 1) for c in itertools.combinations(s, n)]
def actions(kind):
    """(expressions, action word, resets, increments) to try"""
    if kind == 'list':
        for ids in ((0, 1, 2), (0, 17, 40)):
            for rs in sub(ids):
                for incs in sub(ids):
                    if rs or incs: yield ids[-1] + 1, 5, rs, incs
    elif kind == 'single':
        for a in (0, 1, 2, 3): yield 1, a, (0,) if a & 2 else (), (0,) if a & 1 else ()
def show(v):
    if v is None: return 'unknown'
    if v[0] == 'X': return {'c': 'the old count', 't': 'the old best'}[v[1][0]] + ('+%d' % v[2] if v[2] else '')
    n = ival(v) if isbits(v) else None
    return 'unknown' if n is None else str(n)
def judge(run, st, vc, vt, C, T, inc, res, eager):
    if vt is not None and vt != T and run.cmp(st, 'eq', T, vt, 32) is True: vt = T
    if vc is not None and vc != C and run.cmp(st, 'eq', C, vc, 32) is True and not inc and not res: vc = C
    ec = const(int(inc), 32) if res or isbits(C) and inc else ('X', C[1], 1) if inc else C
    if vc != ec: return 'the current count becomes %s instead of %s' % (show(vc), show(ec))
    # the best so far: the larger of best and current stays reachable, and of the new current count when eager
    others = [x for x in ([ec] if eager else [C] if res else []) if x != vt]
    if vt == T: ok = all(le(run, st, x, T, eager, C) for x in others)
    elif vt in (ec if eager else None, C): ok = vt in ((ec,) if eager else (C,) if res else ()) and le(run, st, T, vt, False, C)
    else: ok = False
    return None if ok else 'the best count becomes %s%s' % (show(vt), ' although the new count may be larger' if vt == T and eager else '')
def le(run, st, a, b, eager, C):
    if a == C and eager and b[0] == 'X' and b[1][0] == 't': return True           # the best count is never below the current one
    if isbits(a) and ival(a) == 0: return True
    for q, x, y in st.facts:
        if q == 'eq' and x == a and isbits(y): a = y
    return run.cmp(st, 'ule', a, b, 32) is True
def one(ctx, m, f, O, kind, count, word, rs, incs, eager, tracked):
    for zero in (True, False):
        bad = one_(ctx, m, f, O, kind, count, word, rs, incs, eager, tracked, zero)
        if bad: return bad + (' (from zero)' if zero else '')
def one_(ctx, m, f, O, kind, count, word, rs, incs, eager, tracked, zero):
    V = Vectors(); outs = []; st = St()
    scanner(st, O, 'p0', kind, count, entries={5: (rs, incs)} if kind == 'list' else {})
    for nm, off in (('c', O['cur']), ('t', O['tot'])):
        o = V.obj(('P', 'p1', off)); st.mem[(o + '#n', 0)] = (8, const(count, 64))
        for i in tracked: st.mem[('V' + o, 4 * i)] = (4, ('X', '%s%d' % (nm, i), 0) if not zero or nm == 't' else const(0, 32))
    def ret(run, st, v, ins): outs.append((run, st))
    ow = V.obj(('P', 'p1', O['cur'])), V.obj(('P', 'p1', O['tot']))
    def ign(base, off, sz): return base[1:] in ow and (off // 4 not in tracked)
    r = B(m, f, [('P', 'p0', 0), ('P', 'p1', 0), word], call=V.call, ret=ret, ignore=ign, nonzero=['c%d' % i for i in tracked])
    try: r.run(st)
    except bits.Unsupported as e: raise Broken('NoGlueLimitCountingScanner: %s' % e)
    ctx.need(outs, 'NoGlueLimitCountingScanner::TakeAction never returns')
    for run, st in outs:
        if any(x[0] == '?' for x in st.log): return 'writes to a place that cannot be determined'
        if any(x[0] == 'call' for x in st.log): raise Broken('calls something unknown: %s' % (st.log,))
        if V.outside: return 'touches ' + V.outside
        for i in tracked:
            C, T = const(0, 32) if zero else ('X', 'c%d' % i, 0), ('X', 't%d' % i, 0)
            vc, vt = (st.mem.get(('V' + o, 4 * i), (4, None))[1] for o in ow)
            bad = judge(run, st, vc, vt, C, T, i in incs, i in rs, eager)
            if bad: return 'expression %d: %s' % (i, bad)
def take(ctx, m):
    f = m.fns['e_NoGlueLimit_act']; O = offsets(m); n = 0
    for kind in ('single', 'list', 'mask'):
        def cases():
            if kind != 'mask':
                for c, a, rs, incs in actions(kind): yield c, const(a, 32), rs, incs, sorted(set(rs) | set(incs) | {0})
                return
            for i in range(16):
                for inc in (0, 1):
                    for res in (0, 1):
                        w = list(top(32)); w[i] = inc; w[16 + i] = res
                        yield 16, tuple(w), (i,) if res else (), (i,) if inc else (), [i]
        fails = {}
        for eager in (True, False):
            fails[eager] = None; done = 0
            for c, w, rs, incs, tr in cases():
                done += 1; bad = one(ctx, m, f, O, kind, c, w, rs, incs, eager, tr)
                if bad: fails[eager] = (rs, incs, bad); break
            if not fails[eager]: break
        n += done
        what = {'single': 'one expression', 'list': 'lists of expressions', 'mask': 'actions of an AdvancedCountingScanner image'}[kind]
        bad = None if not all(fails.get(e, 1) for e in (True, False)) else fails[True]
        ctx.decide('count', not bad, f.loc(), 'NoGlueLimitCountingScanner::TakeAction, %s: %s' % (what, 'resets %s, increments %s: %s' % (list(bad[0]), list(bad[1]), bad[2]) if bad else
                   'resets, then increments, each expression on its own (%d actions)' % done))
    return n
def result(ctx, m):
    f = m.fns['e_NoGlueLimit_result']; O = offsets(m); C, T = ('X', 'c0', 0), ('X', 't0', 0)
    for i in (0, 1, 40):
        V = Vectors(); st = St(); bad = [None]; n = [0]
        for v, off in ((C, O['cur']), (T, O['tot'])):
            o = V.obj(('P', 'p0', off)); st.mem[(o + '#n', 0)] = (8, const(41, 64)); st.mem[('V' + o, 4 * i)] = (4, v)
        def ret(run, st, v, ins):
            n[0] += 1
            if not (v == C and le(run, st, T, C, 0, C) or v == T and le(run, st, C, T, 0, C)): bad[0] = 'Result(%d) may be %s' % (i, show(v) if v else 'unknown')
        B(m, f, [('P', 'p0', 0), const(i, 32)], ret=ret, call=V.call).run(st)
        ctx.need(n[0], 'Result never returns')
        ctx.decide('result', not bad[0], f.loc(), 'NoGlueLimitCountingScanner: ' + (bad[0] or 'Result(%d) is the larger of current and best count' % i))
def initial(ctx, m):
    f = m.fns['e_NoGlueLimit_init']; O = offsets(m)
    for count in (0, 1, 2, 40):
        V = Vectors(); st = St(); bad = [None]; n = [0]
        scanner(st, O, 'p0', 'single', count)
        for off in (O['cur'], O['tot']): V.make(st, ('P', 'p1', off), [named('junk', 32)] * 3)
        def ret(run, st, v, ins):
            n[0] += 1
            for off, nm in ((O['cur'], 'current'), (O['tot'], 'best')):
                g = V.get(st, ('P', 'p1', off))
                if g != [const(0, 32)] * count: bad[0] = '%d expressions: the %s counts are %s' % (count, nm, [show(x) for x in g][:4])
        def call(run, st, i, w): return ('P', '[null', 0) if (i.get('f') or '').endswith('4NullEv') else V.call(run, st, i, w)
        B(m, f, [('P', 'p0', 0), ('P', 'p1', 0)], ret=ret, call=call).run(st)
        ctx.need(n[0], 'Initialize never returns')
        ctx.decide('init', not bad[0], f.loc(), 'NoGlueLimitCountingScanner::Initialize: ' + (bad[0] or '%d counts, all zero' % count))
TASK = 'Pire::Impl::NoGlueLimitCountingScannerGlueTask'
CONNECT, SUCCESS = ('_ZN4Pire4Impl34NoGlueLimitCountingScannerGlueTask' + x for x in ('7ConnectEmmt', '7SuccessEv'))
RULES = ('-^std::vector<', '-^std::map<', '-^std::back_insert', '-^std::_Rb_tree')
def task_off(m):
    c = m.classes.get(TASK); 
    if not c: raise Broken('glue task of NoGlueLimitCountingScanner not found')
    own = {}
    for x in c['members']: own.setdefault(x['n'].split('.')[0], x['o'])
    for n, k in m.classes.items():
        if 'GlueTask<Pire::NoGlueLimit' in n or 'ScannerGlueCommon<Pire::NoGlueLimit' in n:
            for x in k['members']: own.setdefault(x['n'].split('.')[0], x['o'])
    return own
def sides(kind):
    """(expressions, action, resets, increments) of one side of a glued step; the action is a position in the side's list"""
    if kind == 'single': return [(1, a, (0,) if a & 2 else (), (0,) if a & 1 else ()) for a in range(4)]
    if kind == 'list': return [(3, 0, (), ()), (3, 5, (), (1,)), (3, 5, (0, 2), (1,)), (3, 5, (2,), ()), (3, 5, (0,), (0, 1, 2))]
    if kind == 'mask': return [(k, sum(1 << 16 + x for x in rs) | sum(1 << x for x in incs), rs, incs) for k, rs, incs in
                               ((2, (), ()), (2, (0, 1), ()), (2, (1,), (0, 1)), (16, (15,), (15,)), (1, (0,), (0,)), (3, (), (2,)))]
def result_off(T):
    o = [o for n, o in T.items() if n.startswith('m_result')]
    if not o: raise Broken('glue task layout not found')
    return o[0]
class Glue:
    def __init__(self, ctx):
        import common
        self.ctx = ctx; self.m = m = common.norm('^(%s|%s)$' % (CONNECT, SUCCESS), RULES); self.f = m.fns.get(CONNECT); self.s = m.fns.get(SUCCESS)
        ctx.need(self.f is not None and not self.f.decl and self.s is not None and not self.s.decl, 'gluing of NoGlueLimitCountingScanner not found')
        self.O = offsets(m); self.T = task_off(m)
    def connect(self, lk, l, rk, r, known, table):
        m, O, T, f = self.m, self.O, self.T, self.f; V = Vectors(); st = St(); outs = []
        st.mem[('p0', T['m_lhs'])] = (8, ('P', 'lhs', 0)); st.mem[('p0', T['m_rhs'])] = (8, ('P', 'rhs', 0))
        for b, k, x in (('lhs', lk, l), ('rhs', rk, r)): scanner(st, O, b, k, x[0], entries={x[1]: (x[2], x[3])} if k == 'list' and x[1] else {})
        st.mem[('p0', result_off(T))] = (8, ('P', 'result', 0)); V.make(st, ('P', 'p0', T['glue_actions_']), list(table)); at = len(table)
        rs = tuple(l[2]) + tuple(l[0] + x for x in r[2]); incs = tuple(l[3]) + tuple(l[0] + x for x in r[3])
        key = None; stored = []
        def load(run, st, p, size, w):
            for b, x in (('lhs', l), ('rhs', r)):
                if p[1].startswith('[%s%+d]' % (b, O['jumps'])) and bits.ELEM.search(p[1]):
                    if p[2] == 4 and size == 4: return const(x[1], 32)
                    if p[2] == 0 and size == 8: return top(32) + const(x[1], 32)
            return None
        def store(run, st, p, size, v, ins):
            if p and p[0] == 'P' and p[1].startswith('[result') and bits.ELEM.search(p[1]):
                if p[2] == 4 and size == 4: st.log += (('action', v),)
                elif p[2] == 0 and size == 8: st.log += (('action', v[32:] if v is not None and isbits(v) else None),)
                return True
            return False
        def mapkey(run, st, p):
            """the two lists a key of the map holds"""
            c = m.classes.get(TASK + '::TGlueAction')
            if not c: raise Broken('key of the glue map not found')
            at = {}
            for x in c['members']: at.setdefault(x['n'].split('.')[0], x['o'])
            return [tuple(ival(x) for x in V.get(st, ('P', p[1], p[2] + o))) for n, o in sorted(at.items(), key=lambda x: x[1])], None
        def call(run, st, i, w):
            fn = i.get('f') or ''
            if fn.endswith('4NullEv'): return ('P', '[null', 0)
            if 'vectorIN4Pire5ypairImm' in fn and fn.endswith('ixEm'): return ('P', 'states', 0)
            if fn.startswith('_ZNSt3mapI') or fn.startswith('_ZNKSt3mapI'):
                if re.search(r'4findERS', fn) :
                    st.log += (('key', tuple(mapkey(run, st, run.op(st, i['a'][1]))[0])),)
                    return ('P', 'node' if known else 'mapend', 0)
                if re.search(r'5countERS', fn): st.log += (('key', tuple(mapkey(run, st, run.op(st, i['a'][1]))[0])),); return const(int(known), 64)
                if re.search(r'(3endEv|4cendEv)$', fn): return ('P', 'mapend', 0)
                if re.search(r'(ixERS\S*|ixEOS\S*|2atERS\S*)$', fn):
                    st.log += (('key', tuple(mapkey(run, st, run.op(st, i['a'][1]))[0])),)
                    st.mem.setdefault(('value', 0), (4, const(77, 32) if known else const(0, 32))); return ('P', 'value', 0)
                raise Broken('unmodelled operation on the glue map: ' + fn)
            if re.match(r'_ZSt(eq|ne)RKSt\d+_Rb_tree', fn) or re.match(r'_ZStneRKSt17_Rb_tree|_ZNKSt17_Rb_tree_iterator\S*(eq|ne)ER', fn):
                a, b = (run.rd(st, run.op(st, x), 8, 64) for x in i['a'][:2])
                if not a or not b or a[0] != 'P' or b[0] != 'P': raise Broken('iterators of the glue map are not known')
                e = a == b
                return const(int(e if 'eqR' in fn or 'eqER' in fn else not e), 1)
            if re.match(r'_ZNK?St(17_Rb_tree_iterator|23_Rb_tree_const_iterator)\S*ptEv$', fn) or re.match(r'_ZNK?St(17_Rb_tree_iterator|23_Rb_tree_const_iterator)\S*deEv$', fn):
                it = run.rd(st, run.op(st, i['a'][0]), 8, 64)
                if it != ('P', 'node', 0): raise Broken('an end iterator of the glue map is dereferenced')
                st.mem.setdefault(('value', 0), (4, const(77, 32))); return ('P', 'value', -48)
            return V.call(run, st, i, w)
        def ret(run, st, v, ins): outs.append((run, st, V.get(st, ('P', 'p0', T['glue_actions_']))))
        run = B(m, f, [('P', 'p0', 0), named('from', 64), named('to', 64), named('c', 16)], load=load, store=store, call=call, ret=ret); run.nounwind = True
        st.mem[('states', 0)] = (8, named('ls', 64)); st.mem[('states', 8)] = (8, named('rs', 64))
        try: run.run(st)
        except bits.Unsupported as e: raise Broken('gluing NoGlueLimitCountingScanner: %s' % e)
        self.ctx.need(outs, 'gluing of NoGlueLimitCountingScanner never stores a transition')
        for rn, st, after in outs:
            acts = [v for k, v in (x for x in st.log if x[0] == 'action')]; keys = [x[1] for x in st.log if x[0] == 'key']
            unk = [x for x in st.log if x[0] == '?' or x[0] == 'call']
            if unk and any(x[0] == 'call' for x in unk): raise Broken('calls something unknown: %s' % (unk[:2],))
            if len(acts) != 1: return 'stores %d actions for the transition' % len(acts)
            a = ival(acts[0]) if acts[0] is not None and isbits(acts[0]) else None
            if not rs and not incs:
                if a != 0 and not (a is not None and self.listed(after, a) == ((), ())): return 'a step without actions is stored with action %s' % a
                if a == 0 and after != list(table): return 'a step without actions changes the table of lists'
                continue
            if any(sorted(map(tuple, k)) != sorted([rs, incs]) for k in keys): return 'looks up the lists %s instead of resets %s and increments %s' % (keys[0], list(rs), list(incs))
            if known and after == list(table):
                if a != 77: return 'a known pair of lists is stored with action %s instead of its own' % a
                continue
            if a is None or a < 1 or self.listed(after, a) != (rs, incs):
                return 'the stored action means %s instead of resets %s, increments %s' % (self.listed(after, a) if a else 'nothing', list(rs), list(incs))
            if after[:at] != list(table): return 'lists already in the table are changed'
            if not known and st.mem.get(('value', 0), (4, None))[1] != const(a, 32): return 'the new action is not remembered for the next transition with the same lists'
    def listed(self, t, a):
        t = [ival(x) for x in t]
        def part(p):
            n = t[p] if p < len(t) else None
            if n is None or p + 1 + n > len(t): return None, None
            return tuple(t[p + 1:p + 1 + n]), p + 1 + n
        r, p = part(a)
        if r is None: return None
        i, p = part(p)
        return (r, i) if i is not None else None
    def run(self):
        ctx = self.ctx; n = 0
        first = [const(1, 32)]; later = first + entry((0,), (1,))
        for lk in ('single', 'list', 'mask'):
            for rk in ('single', 'list', 'mask'):
                bad = None; c = 0
                for l in sides(lk):
                    for r in sides(rk):
                        for known, table in ((False, first), (False, later), (True, later)):
                            c += 1; bad = bad or self.connect(lk, l, rk, r, known, table)
                            if bad: break
                        if bad: break
                    if bad: break
                what = {'single': 'one expression', 'list': 'lists', 'mask': 'an AdvancedCountingScanner image'}
                ctx.decide('glue-action', not bad, self.f.loc(), 'NoGlueLimitCountingScanner::Glue of %s and %s: %s' % (what[lk], what[rk],
                           'left %s, right %s: %s' % (sh(l), sh(r), bad) if bad else 'every list keeps its expressions, the right ones renumbered (%d steps)' % c)); n += c
        self.success(); return n
    def success(self):
        m, O, T, f = self.m, self.O, self.T, self.s; V = Vectors(); st = St(); outs = []; vals = [const(1, 32)] + entry((0, 3), (1,))
        V.make(st, ('P', 'p0', T['glue_actions_']), vals)
        # the result starts as an empty scanner
        st.mem[('p0', result_off(T))] = (8, ('P', 'result', 0))
        st.mem[('result', O['acts'])] = (8, const(0, 64)); st.mem[('result', member(m, SC, 'ActionsBuffer'))] = (8, const(0, 64))
        def call(run, st, i, w):
            fn = i.get('f') or ''
            if (i.get('intr') or '').startswith('llvm.umul.with'): return None
            if fn in ('_Znam', '_Znwm'): return ('P', '%new', 0)
            if fn in ('_ZdaPv', '_ZdlPv', '_ZdaPvm', '_ZdlPvm'): return 'void'
            return V.call(run, st, i, w)
        def ret(run, st, v, ins): outs.append((run, st, v))
        run = B(m, f, [('P', 'p0', 0)], call=call, ret=ret); run.nounwind = True; run.run(st)
        self.ctx.need(outs, 'gluing of NoGlueLimitCountingScanner never finishes')
        for rn, st, v in outs:
            bad = None; p = st.mem.get(('result', O['acts']), (8, None))[1]
            if v != ('P', 'result', 0): bad = 'does not return the glued scanner'
            elif not p or p[0] != 'P' or p[2] is None: bad = 'the scanner does not get the lists'
            else:
                got = [rn.rd(st, ('P', p[1], p[2] + 4 * k), 4, 32) for k in range(len(vals))]
                if got[1:] != vals[1:]: bad = 'the lists are not copied into the scanner'
                elif got[0] != const(len(vals), 32): bad = 'the length of the lists stored with the scanner is %s instead of %d' % (show(got[0]), len(vals))
            self.ctx.decide('glue-lists', not bad, f.loc(), 'NoGlueLimitCountingScanner::Glue: ' + (bad or 'the scanner owns a copy of all lists, with its length'))
LESS = '_ZNK4Pire4Impl34NoGlueLimitCountingScannerGlueTask11TGlueActionltERKS2_'
def ordering(ctx):
    """two pairs of lists count as the same key only when both lists agree"""
    import common
    m = common.norm('^%s$' % LESS, RULES); f = m.fns.get(LESS)
    if f is None or f.decl: ctx.cov['key_order'] = 'not interpreted'; return
    c = {}
    for x in m.classes[TASK + '::TGlueAction']['members']: c.setdefault(x['n'].split('.')[0], x['o'])
    offs = sorted(c.values()); table = {}
    class Skip(Exception): pass
    lists = [(), (0,), (1,), (0, 1)]; keys = list(itertools.product(lists, repeat=len(offs)))
    for ka in keys:
        for kb in keys:
            outs = []; V = Vectors(); st = St()
            for base, key in (('p0', ka), ('p1', kb)):
                for o, l in zip(offs, key): V.make(st, ('P', base, o), [const(x, 32) for x in l])
            def val(st, p): return tuple(ival(x) for x in V.get(st, p))
            def verdict(n, a, b): return const(int({'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[n]), 1)
            def call(run, st, i, w):
                fn = i.get('f') or ''; a = [run.op(st, x) for x in i['a']]
                if re.match(r'_ZSt3tieI', fn): st.log += (('tuple', a[0], tuple(a[1:])),); return 'void'
                t = re.match(r'_ZSt(lt|gt|le|ge|eq|ne)I', fn)
                if t and 'tuple' in fn:
                    tup = {x[1]: x[2] for x in st.log if x[0] == 'tuple'}
                    if a[0] not in tup or a[1] not in tup: raise Skip('unknown tuple')
                    return verdict(t.group(1), *[[val(st, x) for x in tup[y]] for y in a[:2]])
                if t: return verdict(t.group(1), val(st, a[0]), val(st, a[1]))
                r = V.call(run, st, i, w)
                if r is None: raise Skip(fn)
                return r
            def ret(run, st, v, ins): outs.append(v)
            try: B(m, f, [('P', 'p0', 0), ('P', 'p1', 0)], call=call, ret=ret).run(st)
            except (Skip, Broken, bits.Unsupported) as e: ctx.cov['key_order'] = 'not interpreted: %s' % e; return
            vs = {ival(v[:1]) if v is not None and isbits(v) else None for v in outs}
            if len(vs) != 1 or None in vs: ctx.cov['key_order'] = 'not interpreted'; return
            table[ka, kb] = vs.pop()
    bad = None
    for a in keys:
        if table[a, a]: bad = 'puts a pair of lists before itself'
        for b in keys:
            if a != b and table[a, b] == table[b, a]: bad = 'takes two different pairs of lists for the same: %s and %s' % (a, b) if not table[a, b] else 'puts each of two pairs of lists before the other'
            if not bad and table[a, b] and any(table[b, x] and not table[a, x] for x in keys): bad = 'is not transitive'
    ctx.decide('glue-key', not bad, f.loc(), 'NoGlueLimitCountingScanner::Glue: the order of the map of lists ' + (bad or 'tells apart any two different pairs of lists (%d pairs)' % len(table)))
def sh(x): return 'resets %s increments %s' % (list(x[2]), list(x[3]))
def run(ctx, m):
    n = take(ctx, m); result(ctx, m); initial(ctx, m)
    ordering(ctx)
    return n, Glue(ctx).run()
