"""F10: operations on automata build the automaton of the specified language, whatever the operands."""
import re
from common import norm, raw
import bits, fsmops
from bits import St, const, ival
from fsmops import Machine, Operand, Nfa, Stop, extract, layout, differ, show, canon, EPS
from ctx import Broken
from U01 import gload
METHOD = dict(ctor='Fsm', makefalse='MakeFalse', append='Append', appendsp='AppendSpecial', appenddot='AppendDot', surround='Surround', surrounded='Surrounded', addeq='operator+=', oreq='operator|=',
    andeq='operator&=', muleq='operator*=', iterate='Iterate', complement='Complement', add='operator+', star='operator*', mul='operator*', makeprefix='MakePrefix', makesuffix='MakeSuffix',
    prependany='PrependAnything', appendany='AppendAnything', reverse='Reverse'); METHOD.update({'or': 'operator|', 'and': 'operator&', 'not': 'operator~'})
OPS = 'ctor|makefalse|append|appendsp|appenddot|surround|surrounded|addeq|oreq|andeq|muleq|iterate|complement|add|or|and|star|not|mul|makeprefix|makesuffix|prependany|appendany|reverse'
RX = '^e_Fsm_(%s)$|^_ZN4Pire3FsmC2Ev$|^_ZNK4Pire12_GLOBAL__N_1[0-9]+(Utf8|Latin1)9AppendDot' % OPS
def drive(m, sym, ops, params, L, size, alphabet=None, toomany=False):
    """runs function sym with the operands stored; params: names of stored operands, or values"""
    fn = m.fns.get(sym)
    if fn is None or fn.decl: raise Broken('function %s not found' % sym)
    sh = {'keys': {}, 'sizes': [], 'bad': [], 'fsmsize': size, 'L': L, 'alphabet': alphabet, 'toomany': toomany}
    outs = []
    r = Machine(m, fn, params, sh, load=gload(m), ret=lambda run, s, v, ins: outs.append((run, s, v)))
    st = St(mem=fsmops.Mem())
    for base, o in ops.items():
        if o is not None: o.store(r, st, base, L)
    try: r.run(st)
    except Stop: return fn, outs, sh['bad']
    return fn, outs, sh['bad']
def nfa(o, tag):
    """the annotated automaton of an operand"""
    out = {k: v for k, v in o.outs.items()}
    return Nfa({((tag, u), (x, out.get((u, v))) if x != EPS else EPS, (tag, v)) for u, x, v in o.edges()}, {(tag, o.initial)}, {(tag, f) for f in o.final})
def concat(a, b): return Nfa(a.edges | b.edges | {(f, EPS, i) for f in a.finals for i in b.starts}, a.starts, b.finals)
def union(a, b): return Nfa(a.edges | b.edges, a.starts | b.starts, a.finals | b.finals)
def star(a): return Nfa(a.edges | {('S', EPS, i) for i in a.starts} | {(f, EPS, 'S') for f in a.finals}, {'S'}, {'S'})
def rev(a): return Nfa({(v, x, u) for u, x, v in a.edges}, a.finals, a.starts)
def chain(sets, tag):
    """every choice of one letter of each set in turn"""
    return Nfa({((tag, i), (x, None), (tag, i + 1)) for i, s in enumerate(sets) for x in s}, {(tag, 0)}, {(tag, len(sets))})
def anything(tag): return Nfa({((tag,), (x, None), (tag,)) for x in range(264) if x != EPS}, {(tag,)}, {(tag,)})
EMPTY = Nfa((), {'e'}, ()); NULL = Nfa((), {'e'}, {'e'})
def dot8():
    r = None; c = range(0x80, 0xC0)
    for i, s in enumerate(([range(0x80)], [range(0xC0, 0xE0), c], [range(0xE0, 0xF0), c, c], [range(0xF0, 0xF8), c, c, c])):
        n = chain(s, 'd%d' % i); r = n if r is None else union(r, n)
    return r
def got(A):
    return Nfa({(u, (x, A.outs.get((u, v))) if x != EPS else EPS, v) for u, x, v in A.edges}, {A.initial}, A.final)
def plainly(n): return Nfa({(u, x[0] if x != EPS else EPS, v) for u, x, v in n.edges}, n.starts, n.finals)
def tagged(n, tags):
    """acceptance together with the tag of the accepting state"""
    return Nfa({e if e[1] != EPS else e for e in n.edges} | {(f, ('tag', tags.get(f)), 'T') for f in n.finals}, n.starts, {'T'})
class Check:
    def __init__(self, ctx): self.m = norm(RX, fsmops.RULES); self.L, self.size = layout(self.m); self.todo = []
    def where(self, fn):
        n = METHOD.get(fn.name[6:]) if fn.name.startswith('e_Fsm_') else None
        f = next((f for f in raw().fns.values() if not f.decl and f.qname == 'Pire::Fsm::%s' % n), None) if n else None
        return (f or fn).loc()
    def op(self, *a, **k): self.todo.append((a, k))
    def one(self, title, symbol, operands, params, spec, tags=None, base='p0', outs=True, keep=True, alphabet=None, toomany=False):
        """[(rule, holds, where, what)], or the reason why the operation cannot be interpreted"""
        sy = next((f for f in sorted(self.m.fns) if re.search(symbol, f) and not self.m.fns[f].decl), None)
        if sy is None: raise Broken('function %s not found' % symbol)
        try: fn, res, bad = drive(self.m, sy, operands, params, self.L, self.size, alphabet, toomany)
        except (Broken, bits.Unsupported) as e: return '%s: %s' % (title, e)
        where = self.where(fn)
        if bad: return [('language', False, where, '%s: %s' % (title, bad[0]))]
        if toomany: return [('limit', not res, where, '%s: %s' % (title, 'goes on although an operand could not be determined' if res else 'throws when an operand cannot be determined'))]
        if not res: return [('language', False, where, '%s: never returns' % title)]
        out = []
        for r, s, v in res:
            try: A = extract(r, s, base, self.L)
            except Broken as e: return '%s: %s' % (title, e)
            D = differ(plainly(got(A)), plainly(spec), EPS)
            out.append(('language', not D, where, '%s: %s' % (title, 'the word %s is %s' % (' '.join(D[0]) or '(empty)', 'accepted but should not be' if D[1] else 'not accepted but should be') if D else 'builds exactly the specified language')))
            if D: continue
            if outs:
                D = differ(got(A), spec, EPS)
                out.append(('outputs', not D, where, '%s: %s' % (title, 'the output of the last step of %s differs' % ' '.join(D[0]) if D else 'every output stays with its step')))
            if tags is not None:
                lost = [t for t in tags.values() if t not in A.tags.values()]
                D = differ(tagged(got(A), A.tags), tagged(spec, tags), EPS) if keep else None
                out.append(('tags', not lost and not D, where, '%s: %s' % (title, 'a tag is lost' if lost else 'the tag reported after %s differs' % ' '.join(D[0][:-1]) if D else 'every tag stays with its state')))
            why = None
            if A.flags['determined'] != 0:
                seen = {}
                for u, x, v2 in A.edges:
                    if x == EPS: why = 'is declared determined although it has empty steps'
                    elif seen.setdefault((u, x), v2) != v2: why = 'is declared determined although a letter has two targets'
                if A.flags['determined'] is None: why = 'leaves it open whether it is determined'
            out.append(('determined', not why, where, '%s: the result %s' % (title, why or 'is not declared determined wrongly')))
            why = None
            if A.flags['isAlternative'] != 0:
                if any(v2 == A.initial for u, x, v2 in A.edges): why = 'is declared an alternative although its initial state can be entered'
                elif any(u == A.initial and x != EPS for u, x, v2 in A.edges): why = 'is declared an alternative although its initial state reads letters'
                elif A.initial in A.final: why = 'is declared an alternative although its initial state is final'
            out.append(('alternative', not why, where, '%s: the result %s' % (title, why or 'is not declared an alternative wrongly')))
        return out
def tagsof(o, tag): return {(tag, k): v for k, v in o.tags.items()}
W = None
def work(k):
    a, kw = W.todo[k]
    try: return W.one(*a, **kw)
    except Broken as e: return ('broken', str(e))
def comp(n, states): return Nfa(n.edges, n.starts, set(states) - set(n.finals))
def inter(a, b):
    ia, ib = a.index(), b.index()
    e = {((u, p), x, (v, q)) for u in ia for p in ib for x in ia[u] if x in ib[p] for v in ia[u][x] for q in ib[p][x]}
    return Nfa(e, {(i, j) for i in a.starts for j in b.starts}, {(i, j) for i in a.finals for j in b.finals})
def power(o, n):
    r = NULL
    for k in range(n): r = concat(r, nfa(o, 'P%d' % k))
    return r
def run(ctx):
    global W
    C = W = Check(ctx); P, Q, S = ('P', 'p0', 0), ('P', 'p1', 0), ('P', 'p2', 0)
    e = lambda n: '^e_Fsm_%s$' % n
    variants = [dict(), dict(nullable=True), dict(alt=True), dict(sparse=True), dict(sparse=True, nullable=True), dict(sparse=True, alt=True), dict(det=True), dict(det=True, nullable=True, sparse=True)]
    names = dict(nullable='accepting the empty word', alt='alternative', sparse='with letter classes', det='determined', stray='with dead states')
    def label(v): return ', '.join(names[k] for k in names if v.get(k)) or 'any'
    for a in variants:
        for b in variants:
            l, r = Operand('L', **a), Operand('R', **b); o = {'p0': l, 'p1': r}
            t = dict(tagsof(l, 'L')); t.update(tagsof(r, 'R')); lab = '(a %s; b %s)' % (label(a), label(b))
            C.op('a += b ' + lab, e('addeq'), o, [P, Q], concat(nfa(l, 'L'), nfa(r, 'R')), t, keep=not b.get('nullable'))
            C.op('a |= b ' + lab, e('oreq'), o, [P, Q], union(nfa(l, 'L'), nfa(r, 'R')), t)
        l = Operand('L', **a); o = {'p0': l}; n = nfa(l, 'L'); n2 = nfa(l, 'M'); t = tagsof(l, 'L'); lab = ' (%s)' % label(a)
        C.op('a += a' + lab, e('addeq'), o, [P, P], concat(n, n2))
        C.op('a |= a' + lab, e('oreq'), o, [P, P], union(n, n2))
        C.op('a + a' + lab, e('add'), {'p1': l}, [P, Q, Q], concat(n, n2))
        C.op('a | a' + lab, e('or'), {'p1': l}, [P, Q, Q], union(n, n2))
        C.op('Iterate' + lab, e('iterate'), o, [P], star(n), t, keep=False)
        C.op('*a' + lab, e('star'), {'p1': l}, [P, Q], star(n), t, keep=False)
        for k in (0, 1, 3):
            C.op('a * %d' % k + lab, e('mul'), {'p1': l}, [P, Q, const(k, 64)], power(l, k), outs=k < 2)
            C.op('a *= %d' % k + lab, e('muleq'), o, [P, const(k, 64)], power(l, k), outs=k < 2)
        for c in (0x61, 0xE9): C.op('Append(char %d)' % c + lab, e('append'), o, [P, const(c, 8)], concat(n, chain([[c]], 'c')), t, keep=False)
        for c in (0, 97, 258, 259): C.op('AppendSpecial(%d)' % c + lab, e('appendsp'), o, [P, const(c, 16)], concat(n, chain([[c]], 'c')), t, keep=False)
        C.op('AppendDot' + lab, e('appenddot'), o, [P], concat(n, chain([range(256)], 'c')), t, keep=False)
        C.op('AppendAnything' + lab, e('appendany'), o, [P], concat(n, anything('A')), t, keep=False)
        C.op('PrependAnything' + lab, e('prependany'), o, [P], concat(anything('A'), n), t)
        C.op('Surround' + lab, e('surround'), o, [P], concat(concat(anything('A'), n), anything('B')), t, keep=False)
        C.op('Surrounded' + lab, e('surrounded'), {'p1': l}, [P, Q], concat(concat(anything('A'), n), anything('B')), t, keep=False)
        C.op('Reverse' + lab, e('reverse'), o, [P], rev(n), t, keep=False)
        for s in (None, 'no way in', 'no way out') if not a.get('alt') and not a.get('sparse') else (None,):
            l2 = Operand('L', stray=s, **a); n3 = nfa(l2, 'L'); o2 = {'p0': l2}; lab2 = lab[:-1] + (', a state with %s)' % s if s else ')')
            live = {x for ed in n3.edges for x in (ed[0], ed[2])} - ({('L', l2.M)} if s else set())
            C.op('MakePrefix' + lab2, e('makeprefix'), o2, [P], Nfa(n3.edges, n3.starts, live), t)
            C.op('MakeSuffix' + lab2, e('makesuffix'), o2, [P], Nfa(n3.edges, live, n3.finals), t)
        for en, d in (('Utf8', dot8()), ('Latin1', chain([range(256)], 'c'))):
            C.op('%s dot (%s)' % (en, label(a)), '^_ZNK4Pire12_GLOBAL__N_1[0-9]+%s9AppendDot' % en, {'p1': l}, [P, Q], concat(n, d), t, keep=False, base='p1')
    C.op('Fsm()', e('ctor'), {}, [P], NULL)
    C.op('MakeFalse', e('makefalse'), {}, [P], EMPTY)
    rows, alphabet = fsmops.pair('L', 'R')
    for x in (False, True):
        l = fsmops.Table('L', rows[0], x); n = nfa(l, 'L'); o = {'p0': l}; all3 = {('L', k) for k in range(3)}; lab = ' (%s)' % label(dict(nullable=x))
        for f in (False, True):
            C.op('Complement' + lab, e('complement'), o, [P], comp(n, all3), alphabet=alphabet, toomany=f)
            C.op('~a' + lab, e('not'), {'p1': l}, [P, Q], comp(n, all3), alphabet=alphabet, toomany=f)
        C.op('a &= a' + lab, e('andeq'), o, [P, P], n, alphabet=alphabet)
        for y in (False, True):
            r = fsmops.Table('R', rows[1], y); lab = ' (a %s; b %s)' % (label(dict(nullable=x)), label(dict(nullable=y)))
            for f in (False, True):
                C.op('a &= b' + lab, e('andeq'), {'p0': l, 'p1': r}, [P, Q], inter(n, nfa(r, 'R')), alphabet=alphabet, toomany=f)
                C.op('a & b' + lab, e('and'), {'p1': l, 'p2': r}, [P, Q, S], inter(n, nfa(r, 'R')), alphabet=alphabet, toomany=f)
    import multiprocessing
    with multiprocessing.get_context('fork').Pool(8) as pool: res = pool.map(work, range(len(C.todo)), chunksize=4)
    und = []
    for r in res:
        if isinstance(r, str): und.append(r)
        elif isinstance(r, tuple): raise Broken(r[1])
        else:
            for x in r: ctx.decide(*x)
    for u in und[:5]: print('  not interpreted: %s' % u[:200])
    ctx.need(len(und) * 2 < len(res), 'most operations could not be interpreted: %s' % und[:3])
    ctx.cov['operations'] = len(res); ctx.cov['not interpreted'] = und
    ctx.explanation = ('abstract interpretation of every automaton operation over universal operands (one initial, one final and one other state, a letter of its own on every transition, '
        'standard containers modelled by their documented behaviour); the automaton left behind is compared, as a language with outputs, with the specified one')
    ctx.assumptions += ['an operation treats states and letters of its operands alike except for their role (initial, final, transition letter class), so that one representative of each role stands for all',
        'Determine yields a complete deterministic automaton of the same language, Minimize keeps the language']
