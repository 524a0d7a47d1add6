"""G04: the capturing scanner reports the positions of the first complete capture."""
from common import norm
import bits, G03
from bits import Bits, St, const, ival, top, isbits, named
NPOS = const((1 << 64) - 1, 64)
BEGIN, END = 0, 1
X = lambda n, k=0: ('X', n, k)
def run(ctx):
    m = norm('^e_Capturing_(act|init|nextact|captured|begin|end)$')
    d = {x['n']: x['o'] for x in m.classes['Pire::CapturingScanner::State']['members']}
    for n in ('m_begin', 'm_end', 'm_counter', 'm_state'): ctx.need(n in d, 'state of the capturing scanner has no %s' % n)
    cells = {'begin': d['m_begin'], 'end': d['m_end']}
    G03.next_action(ctx, m, 'Capturing', {'Capturing': 'CapturingScanner'})
    # initial state, and every step counts one
    def go(entry, params, mem, **kw):
        out = []
        Bits(m, m.fns[entry], params, ret=lambda run, st, v, ins: out.append((run, st, v)), **kw).run(St(mem=mem))
        ctx.need(out, entry + ' never returns')
        return out
    bad = None
    for run, st, v in go('e_Capturing_init', [('P', 'p0', 0), ('P', 'p1', 0)], {}):
        for n, o in cells.items():
            if run.rd(st, ('P', 'p1', o), 8, 64) != NPOS: bad = '%s is not unset' % n
        if ival(run.rd(st, ('P', 'p1', d['m_counter']), 8, 64)) != 0: bad = 'the position is not zero'
    ctx.decide('init', not bad, m.fns['e_Capturing_init'].loc(), 'CapturingScanner::Initialize: %s' % (bad or 'nothing captured, position zero'))
    mem = {('p1', d['m_counter']): (8, X('n')), ('p1', cells['begin']): (8, X('b')), ('p1', cells['end']): (8, X('e')), ('p1', d['m_state']): (8, ('P', 'state', 0))}
    bad = None
    for run, st, v in go('e_Capturing_nextact', [('P', 'p0', 0), ('P', 'p1', 0), named('c', 16)], mem):
        if st.mem.get(('p1', d['m_counter'])) != (8, X('n', 1)): bad = 'the position does not advance by one'
        if st.mem.get(('p1', cells['begin'])) != (8, X('b')) or st.mem.get(('p1', cells['end'])) != (8, X('e')): bad = 'the captured positions change'
    ctx.decide('position', not bad, m.fns['e_Capturing_nextact'].loc(), 'CapturingScanner::Next: %s' % (bad or 'the position advances by one per character'))
    # actions
    f = m.fns['e_Capturing_act']
    for b in (0, 1):
        for e in (0, 1):
            for beg in (0, 1):
                for end in (0, 1):
                    vb, ve = (X('b') if b else NPOS), (X('e') if e else NPOS)
                    act = list(top(32)); act[BEGIN] = beg; act[END] = end
                    mem = {('p1', d['m_counter']): (8, X('n', 1)), ('p1', cells['begin']): (8, vb), ('p1', cells['end']): (8, ve), ('p1', d['m_state']): (8, ('P', 'state', 0))}
                    bad = None; here = X('n')
                    xb, xe = vb, ve
                    if not (b and e):
                        if beg: xb = here
                        elif end: xe = here
                    class B(Bits):
                        def cmp(self, st, p, x, y, w):      # real positions are never npos
                            if p == 'eq' and x and y and (x[0] == 'X') != (y[0] == 'X') and NPOS in (x, y): return False
                            return Bits.cmp(self, st, p, x, y, w)
                    out = []
                    B(m, f, [('P', 'p0', 0), ('P', 'p1', 0), tuple(act)], ret=lambda run, st, v, ins: out.append(st)).run(St(mem=dict(mem)))
                    ctx.need(out, 'TakeAction never returns')
                    for st in out:
                        for n, x in (('begin', xb), ('end', xe)):
                            got = st.mem.get(('p1', cells[n]), (0, None))[1]
                            if got != x: bad = '%s becomes %s instead of %s' % (n, name(got), name(x))
                        if st.mem.get(('p1', d['m_counter'])) != (8, X('n', 1)) or st.mem.get(('p1', d['m_state'])) != (8, ('P', 'state', 0)): bad = 'the position or the state changes'
                        if st.log: bad = 'writes to a place that cannot be determined'
                    ctx.decide('capture', not bad, f.loc(), 'CapturingScanner::TakeAction, begin %s, end %s, action%s%s: %s' % ('set' if b else 'unset', 'set' if e else 'unset',
                        ' begins' if beg else '', ' ends' if end else '' if beg else ' does neither', bad or 'positions updated as specified'))
            # accessors
            mem = {('p0', cells['begin']): (8, X('b') if b else NPOS), ('p0', cells['end']): (8, X('e') if e else NPOS)}
            class B(Bits):
                def cmp(self, st, p, x, y, w):
                    if p == 'eq' and x and y and (x[0] == 'X') != (y[0] == 'X') and NPOS in (x, y): return False
                    return Bits.cmp(self, st, p, x, y, w)
            for acc, exp in (('captured', int(bool(b and e))), ('begin', mem[('p0', cells['begin'])][1]), ('end', mem[('p0', cells['end'])][1])):
                out = []
                B(m, m.fns['e_Capturing_' + acc], [('P', 'p0', 0)], ret=lambda run, st, v, ins: out.append(v)).run(St(mem=dict(mem)))
                ctx.need(out, acc + ' never returns')
                ok = all((ival(v) == exp) if acc == 'captured' else v == exp for v in out)
                ctx.decide('report', ok, m.fns['e_Capturing_' + acc].loc(), 'CapturingScanner::State::%s() with begin %s and end %s %s' % (acc.capitalize(), 'set' if b else 'unset', 'set' if e else 'unset', 'reports it' if ok else 'reports something else'))
    ctx.explanation = 'abstract interpretation, bit by bit, of the functions that keep and report captured positions, for every combination of action bits and of positions already set'
    ctx.assumptions += ['fewer than 2^64 characters are fed', 'which transitions carry begin and end actions is decided by the pattern compiler']
def name(v):
    if v is None: return 'something unknown'
    if v == NPOS: return 'unset'
    if v[0] == 'X': return {'n': 'the position of this character', 'b': 'the old begin', 'e': 'the old end'}[v[1]] + ('%+d' % v[2] if v[2] else '')
    return 'a wrong value'
