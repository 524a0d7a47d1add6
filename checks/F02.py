"""Building operations leave their read-only operands untouched."""
import re
import common, effects
from C01 import judge, nice

def run(c):
    m = common.raw()
    ents = []
    for n, f in sorted(m.fns.items()):
        if f.decl or not n.startswith('e_'): continue
        if not re.match(r'^e_(Fsm|HFsm|approx|\w+_(ctor\d?|copy|assign|glue|fromNonreloc|fromReloc|compile)$|BitSet_|Regexp_|Lexer_)', n): continue
        if n.startswith('e_Any_'): continue
        ts = f.d.get('ditypes') or []
        if any(t[3] and t[0].endswith('*') for t in ts[1:]): ents.append(n)
    c.need(len(ents) >= 40, 'only %d building entry points found' % len(ents))
    e = effects.Effects(m, ents, lite=True)
    for n in ents:
        f = m.fns[n]; S = e.sums[n]; ts = f.d['ditypes']; bad = False
        for o, w in sorted(S.mod.items(), key=str):
            if o[0] not in 'pPQI' or o[1] + 1 >= len(ts) or not ts[o[1] + 1][3]: continue
            cls = ts[o[1] + 1][0].replace('const ', '').rstrip('*& ')
            from C01 import field
            tr = e.trace(n, o)
            c.bad('operand-read-only', tr[-1] if tr else n, '%s writes %s%s of its const %s operand' % (n[2:], 'storage reached from field ' if o[0] in 'PQI' else 'field ', field(m, cls, o[2]), common.short(cls)), tr); bad = True
        if not bad: c.ok('operand-read-only', n[2:])
    c.cov.update(functions_analysed=len(e.sums), entry_points=len(ents), unresolved_indirect_calls=len(e.unknown))
