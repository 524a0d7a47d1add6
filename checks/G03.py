"""G03: counting scanners count each expression on its own, exactly as the transition's action says."""
import re
from common import norm, short
import bits, countvec
from bits import Bits, St, const, ival, top, isbits, named
from ctx import Broken
N = 16; INC, RES = 0, 16
KINDS = {'Counting': 'inc-first', 'AdvCounting': 'reset-first'}
NAMES = {'Counting': 'CountingScanner', 'AdvCounting': 'AdvancedCountingScanner', 'NoGlueLimit': 'NoGlueLimitCountingScanner'}

def fields(m):
    for n, c in m.classes.items():
        if re.match(r'Pire::CountingState<', n):
            d = {x['n']: (x['o'], x['s']) for x in c['members']}
            if 'm_current' in d and 'm_total' in d: return d, c['size']
    raise Broken('state of the counting scanners not found')
def expected(order, c, inc, res):
    """(new current, values whose maximum is the new total)"""
    if order == 'inc-first':
        if inc: c = add1(c)
        return (const(0, 32), c) if res else (c, None)
    if res: return (add1(const(0, 32)) if inc else const(0, 32)), c
    return (add1(c) if inc else c), None
def add1(c): return ('X', c[1], c[2] + 1) if c[0] == 'X' else const(ival(c) + 1, 32)
T = ('X', 't', 0)
def is_max(run, st, v, a, b):
    """v is the larger of a and b on this path"""
    if b is None: return v == a
    if a == b: return v == a
    if v == a: return run.cmp(st, 'ule', b, a, 32) is True or isbits(b) and ival(b) == 0
    if v == b: return run.cmp(st, 'ule', a, b, 32) is True
    return False
def resident(run, st, key): e = st.mem.get(key); return e[1] if e else None

def take_action(ctx, m, kind, order):
    f = m.fns['e_%s_act' % kind]; d, size = fields(m)
    cur, tot = d['m_current'][0], d['m_total'][0]; loc = f.loc(); nstates = 0; blocks = set()
    others = [(o, s) for n, (o, s) in d.items() if n not in ('m_current', 'm_total')]
    for i in range(N):
        # abstract states of expression i: its count (0 or positive) and the remaining fields, bit by bit
        start = (0, tuple((o, s, const(0, 8 * s)) for o, s in others if n_is_aux(d, o)))
        todo = [start]; seen = {start}
        while todo:
            c0, aux = todo.pop(); nstates += 1
            for inc in (0, 1):
                for res in (0, 1):
                    c = ('X', 'c', 0) if c0 else const(0, 32)
                    mem = {('p1', cur + 4 * i): (4, c), ('p1', tot + 4 * i): (4, T)}
                    for o, s, v in aux: mem[('p1', o)] = (s, v)
                    act = list(top(32)); act[INC + i] = inc; act[RES + i] = res
                    outs = []; track = set(mem)
                    def ret(run, st, v, ins): outs.append((run, st))
                    def ign(base, off, sz): return base == 'p1' and not any(o < off + sz and off < o + mem[(b, o)][0] for b, o in track)
                    r = Bits(m, f, [('P', 'p0', 0), ('P', 'p1', 0), tuple(act)], ret=ret, ignore=ign, nonzero=('c',) if c0 else ())
                    try: r.run(St(mem=dict(mem)))
                    except bits.Unsupported as e: raise Broken('%s: %s' % (kind, e))
                    blocks |= r.blocks
                    ctx.need(outs, '%s::TakeAction never returns' % NAMES[kind])
                    ec, et = expected(order, c, inc, res); bad = None
                    for run, st in outs:
                        vc, vt = resident(run, st, ('p1', cur + 4 * i)), resident(run, st, ('p1', tot + 4 * i))
                        if any(x[0] == '?' for x in st.log): bad = 'writes to a place that cannot be determined'
                        elif vc != ec: bad = 'the current count becomes %s instead of %s' % (show(vc), show(ec))
                        elif not is_max(run, st, vt, T, et): bad = 'the best count becomes %s instead of %s' % (show(vt), 'the larger of the old one and %s' % show(et) if et else 'staying as it was')
                        nx = (1 if vc and (vc[0] == 'X' and (vc[2] > 0 or c0) or isbits(vc) and ival(vc)) else 0,
                              tuple((o, s, whole(run, st, o, s)) for o, s, v in aux))
                        if not bad and nx not in seen:
                            if len(seen) > 200: raise Broken('too many abstract states')
                            seen.add(nx); todo.append(nx)
                    what = {(0, 0): 'an action that does not mention it', (1, 0): 'increment', (0, 1): 'reset', (1, 1): 'increment and reset'}[inc, res]
                    key = (kind, i, what)
                    if bad: ctx.bad('count', loc, '%s::TakeAction, expression %d with %s count, %s: %s' % (NAMES[kind], i, 'positive' if c0 else 'zero', what, bad)); 
                    else: ctx.ok('count', '%s expression %d, count %s, %s' % (NAMES[kind], i, '>0' if c0 else '0', what))
            if len(ctx.viol) > 12: return nstates
    return nstates
def whole(run, st, o, s):
    v = run.rd(st, ('P', 'p1', o), s, 8 * s)
    return v if v is not None and isbits(v) else top(8 * s)
def n_is_aux(d, o): return any(x[0] == o for n, x in d.items() if n not in ('m_current', 'm_total', 'm_state'))
def show(v):
    if v is None: return 'something unknown'
    if v[0] == 'X': return {'c': 'the old count', 't': 'the old best'}[v[1]] + ('+%d' % v[2] if v[2] else '')
    n = ival(v)
    return str(n) if n is not None else 'something unknown'
def result(ctx, m, kind):
    f = m.fns['e_%s_result' % kind]; d, size = fields(m); C = ('X', 'c', 0)
    for i in range(N):
        mem = {('p0', d['m_current'][0] + 4 * i): (4, C), ('p0', d['m_total'][0] + 4 * i): (4, T)}; bad = [None]; n = [0]
        def ret(run, st, v, ins):
            n[0] += 1
            if not is_max(run, st, v, T, C) and not is_max(run, st, v, C, T): bad[0] = 'Result(%d) may be %s' % (i, show(v))
        Bits(m, f, [('P', 'p0', 0), const(i, 32)], ret=ret).run(St(mem=mem))
        ctx.need(n[0], 'Result never returns')
        ctx.decide('result', not bad[0], f.loc(), '%s: %s' % (NAMES[kind], bad[0] or 'Result(%d) is the larger of current and best count' % i))
def initial(ctx, m, kind):
    f = m.fns['e_%s_init' % kind]; d, size = fields(m); bad = [None]; n = [0]
    def ret(run, st, v, ins):
        n[0] += 1
        for nm, (o, s) in d.items():
            if nm == 'm_state': continue
            for k in range(s):
                if not all(b == 0 for b in (run.byte(st, 'p1', o + k) or (None,))): bad[0] = '%s is not cleared' % nm
    Bits(m, f, [('P', 'p0', 0), ('P', 'p1', 0)], ret=ret).run()
    ctx.need(n[0], 'Initialize never returns')
    ctx.decide('init', not bad[0], f.loc(), '%s::Initialize: %s' % (NAMES[kind], bad[0] or 'all counts start at zero'))

def next_action(ctx, m, kind, names=NAMES):
    """Next: the action returned and the distance moved both come from the entry of this state and this letter"""
    f = m.fns['e_%s_nextact' % kind]
    mem = {('p1', 0): (8, ('P', 'state', 0))}; outs = []
    def load(run, st, p, size, w):
        if size == 1 and ELEM(p) and p[1].endswith('[1*c]'): return named('letter', 8)
        if p[1].startswith('state') and p[2] is not None:
            at = named('at%d:' % p[2] + p[1][5:], 8 * size)
            return at
        return None
    def ret(run, st, v, ins): outs.append((run.rd(st, ('P', 'p1', 0), 8, 64), v))
    Bits(m, f, [('P', 'p0', 0), ('P', 'p1', 0), named('c', 16)], load=load, ret=ret).run(St(mem=dict(mem)))
    ctx.need(outs, 'Next never returns')
    e = '[8*letter]'; sh = named('at0:' + e, 32); sh64 = named('at0:' + e, 64)
    act = (named('at4:' + e, 32), sh64[32:])
    moved = tuple(('S', 'state', 0, x + (x[-1],) * 32) for x in (sh, sh64[:32]))
    ok = all(st in moved and a in act for st, a in outs)
    ctx.decide('next', ok, f.loc(), '%s::Next: %s' % (names[kind], 'action and distance come from the entry of the current state and letter' if ok else
               'the action returned or the state moved to does not come from the entry of the current state and letter'))
def ELEM(p): return p[2] == 0 and bits.ELEM.search(p[1])

TASK = {'Counting': '_ZN4Pire4Impl23CountingScannerGlueTaskINS_15CountingScannerEE7ConnectEmmt', 'AdvCounting': '_ZN4Pire4Impl23CountingScannerGlueTaskINS_23AdvancedCountingScannerEE7ConnectEmmt'}
def member(m, cls, name):
    c = m.classes.get(cls)
    for x in (c or {}).get('members', []):
        if x['n'] == name: return x['o']
    raise Broken('%s has no %s' % (cls, name))
def glue_action(ctx, kind):
    """gluing: every bit of a transition's action moves to the number its expression has in the result"""
    m = norm('^' + TASK[kind] + '$'); f = m.fns.get(TASK[kind])
    ctx.need(f is not None and not f.decl, 'glueing of %s not found' % NAMES[kind])
    L = 'Pire::LoadedScanner'; jumps, count = member(m, L, 'm_jumps'), member(m, L, 'm.regexpsCount')
    task = m.classes[f.cls] if f.cls in m.classes else None
    ctx.need(task, 'glue task layout not found'); off = {x['n']: x['o'] for x in task['members']}
    sc = [o for n, o in off.items() if n.startswith('m_result')]
    ctx.need('m_lhs' in off and 'm_rhs' in off and sc, 'glue task layout not found')
    lhs, rhs = '[p0%+d]' % off['m_lhs'], '[p0%+d]' % off['m_rhs']
    for k in range(N + 1):
        r = N - k; A = {}
        for b, n in (('a', k), ('b', r)): A[b] = tuple(('b', b, i) if (i % 16) < n else 0 for i in range(32))
        got = []
        def load(run, st, p, size, w):
            if p[2] == count and p[1] in (lhs, rhs) and size == 4: return const(k if p[1] == lhs else r, 32)
            for b, side in (('a', lhs), ('b', rhs)):
                if p[1].startswith('[%s%+d]' % (side, jumps)) and bits.ELEM.search(p[1]):
                    if p[2] == 4 and size == 4: return A[b]
                    if p[2] == 0 and size == 8: return top(32) + A[b]
            return None
        def store(run, st, p, size, v, ins):
            if p and p[0] == 'P' and bits.ELEM.search(p[1]) and p[1].startswith('[[p0') :
                if p[2] == 4 and size == 4: got.append((v, ins))
                elif p[2] == 0 and size == 8: got.append((v[32:] if v is not None and isbits(v) else None, ins))
                return True
            return False
        def call(run, st, i, w):
            if (i.get('f') or '').endswith('4NullEv'): return ('P', 'null', 0)
            return None
        class B(Bits):
            def cmp(self, st, p, a, b, w):
                if p == 'eq' and a and b and a[0] == b[0] == 'P' and ('[null' in a[1]) != ('[null' in b[1]): return False
                return Bits.cmp(self, st, p, a, b, w)
        run = B(m, f, [('P', 'p0', 0), named('from', 64), named('to', 64), named('c', 16)], load=load, store=store, call=call); run.run()
        ctx.need(got, '%s: gluing stores no action' % NAMES[kind])
        exp = tuple((A['a'][i] if i % 16 < k else ('b', 'b', i - k)) for i in range(32))
        for v, ins in got:
            ok = v is not None and isbits(v) and v == exp
            ctx.decide('glue-action', ok, f.loc(ins), '%s::Glue, %d and %d expressions: %s' % (NAMES[kind], k, r, 'every action bit moves to the number of its expression' if ok else
                       'action bit %s of the result is %s' % (next(((i, nm(v[i]) + ' instead of ' + nm(exp[i])) for i in range(32) if v[i] != exp[i]), '?') if v is not None and isbits(v) else ('?', 'unknown'))))
def nm(b):
    if b in (0, 1): return str(b)
    return 'unknown' if b is None else ('not ' if b[0] == '~' else '') + 'bit %d of the %s action' % (b[2], {'a': 'left', 'b': 'right'}.get(b[1], b[1]))
def glue_limit(ctx):
    """gluing more expressions than a state can count gives an empty scanner"""
    m = norm('^e_(Counting|AdvCounting|NoGlueLimit)_glue$', ('-^Pire::Impl::Determine', '-^Pire::Impl::.*GlueTask', '-^Pire::Impl::ScannerGlueCommon'))
    cnt, jumps = member(m, 'Pire::LoadedScanner', 'm.regexpsCount'), member(m, 'Pire::LoadedScanner', 'm_jumps')
    for kind in KINDS:
        f = m.fns['e_%s_glue' % kind]; wrong = None; pairs = 0; per = {}
        some = (0, 1, 2, 8, 15, 16, 17, 33)
        for a in range(0, 34):
            for b in sorted({x for x in range(N - 1 - a, N + 3 - a) if x >= 0} | set(some if a in some else (1,))):
                outs = []; nz = []
                def load(run, st, p, size, w):
                    if p[2] == cnt and p[1] in ('p1', 'p2') and size == 4: return const(a if p[1] == 'p1' else b, 32)
                    return None
                def call(run, st, i, w):
                    fn = i.get('f') or ''
                    if fn.endswith('4NullEv'): return ('P', 'null', 0)
                    if '9Determine' in fn: st.log += (('determine',),); return 'void'
                    if 'GlueTask' in fn: return 'void'
                    return None
                def ret(run, st, v, ins):
                    outs.append((('determine',) in st.log, run.rd(st, ('P', 'p0', jumps), 8, 64), ins))
                class B(Bits):
                    def cmp(self, st, p, x, y, w):
                        if p == 'eq' and x and y and x[0] == y[0] == 'P' and ('[null' in x[1]) != ('[null' in y[1]): return False
                        return Bits.cmp(self, st, p, x, y, w)
                B(m, f, [('P', 'p0', 0), ('P', 'p1', 0), ('P', 'p2', 0), named('max', 64)], load=load, call=call, ret=ret).run()
                ctx.need(outs, '%s::Glue never returns' % NAMES[kind]); pairs += 1
                for did, j, ins in outs:
                    if did and a + b > N: wrong = 'glues %d and %d expressions although a state counts only %d' % (a, b, N)
                    elif not did and a + b <= N and not (a == 0 or b == 0): wrong = 'refuses to glue %d and %d expressions' % (a, b)
                    elif not did and a + b > N and not (j and j[0] == 'P' and '[null' in j[1]): wrong = 'does not return an empty scanner for %d and %d expressions' % (a, b)
                    if wrong: break
                if wrong: break
            if wrong: break
        ctx.decide('glue-limit', not wrong, f.loc(), '%s::Glue %s' % (NAMES[kind], wrong or 'returns an empty scanner exactly when the result would hold more than %d expressions (%d pairs of counts)' % (N, pairs)))
def run(ctx):
    m = norm('^e_(Counting|AdvCounting|NoGlueLimit)_(act|result|init|nextact)$')
    for k, order in KINDS.items():
        n = take_action(ctx, m, k, order); result(ctx, m, k); initial(ctx, m, k); next_action(ctx, m, k); glue_action(ctx, k)
        ctx.cov['abstract_states_' + k] = n
    next_action(ctx, m, 'NoGlueLimit')
    mv = norm('^e_NoGlueLimit_(act|result|init)$', countvec.RULES)
    ctx.cov['list_actions'], ctx.cov['list_glue_steps'] = countvec.run(ctx, mv)
    glue_limit(ctx)
    ctx.explanation = 'abstract interpretation, bit by bit, of the code that applies a transition\'s action to one expression\'s counts while all other bits are unknown; reachable abstract states are enumerated per expression'
    ctx.assumptions += ['counts stay below 2^32', 'actions of a scanner use only the bits of its expressions']
