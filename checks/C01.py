"""Matching through a const scanner writes nothing but the caller's state."""
import re
import common, effects

def containers(m, cls):
    c = m.classes.get(cls)
    if not c: return None
    return [(x['o'], x['s'], x['n']) for x in c['members'] if '<base std::' in x['n'] or x['t'].startswith('std::')]

def field(m, cls, off):
    c = m.classes.get(cls)
    if c and off is not None:
        for x in c['members']:
            if x['o'] <= off < x['o'] + x['s']: return x['n']
    return '?' if off is None else '+%d' % off

def judge(c, m, e, n, rule_const, rule_glob, rule_owned=None, label=''):
    f = m.fns[n]; S = e.sums[n]; ts = f.d['ditypes']
    bad = False
    for o, w in sorted(S.mod.items(), key=str):
        loc = e.trace(n, o)
        where = loc[-1] if loc else n
        if o[0] in 'gG':
            g = m.globals.get(o[1], {})
            c.bad(rule_glob, where, '%s writes the process-wide object %s%s' % (label or n, g.get('dname', o[1]), '' if o[0] == 'g' else ' (through a pointer it holds)'), loc); bad = True
            continue
        t = ts[o[1] + 1] if o[1] + 1 < len(ts) else None
        if t is None: continue
        if t[3]:
            cls = t[0].replace('const ', '').rstrip('*& ')
            c.bad(rule_const, where, '%s writes %s%s of its read-only %s argument' % (label or n, 'storage reached from field ' if o[0] in 'PQI' else 'field ', field(m, cls, o[2]), cls), loc); bad = True
        elif o[0] in 'PQI' and rule_owned:
            cls = t[0].rstrip('*& ')
            cs = containers(m, cls)
            if not cs:
                c.bad(rule_owned, where, '%s writes through the value held in field %s of the %s, which does not own that memory' % (label or n, field(m, cls, o[2]), cls), loc); bad = True
    if not bad:
        for r in (rule_const, rule_glob): c.ok(r, '%s: writes only %s' % (label or n, sorted(set('arg%d.%s' % (o[1], o[2]) for o in S.mod if o[0] in 'pPQI'))[:6]))
        if rule_owned: c.ok(rule_owned)

def run(c):
    m = common.raw()
    ents = sorted(n for n, f in m.fns.items() if not f.decl and re.match(r'^e_(%s)_(%s|save)$' % ('|'.join(common.SCANNERS), common.CONST_OPS), n))
    ents = [n for n in ents if not (n.endswith('_save') and 'Nonreloc' in n)]      # those convert a temporary first
    ents += [n for n in m.fns if re.match(r'^e_(Regexp_matches|Pair_\w+)$', n) and not m.fns[n].decl]
    c.need(len(ents) >= 150, 'only %d matching entry points found' % len(ents))
    e = effects.Effects(m, ents)
    for n in ents:
        if n.endswith('_save'):
            judge(c, m, e, n, 'const-argument', 'no-global-write', None, nice(m, n))
        else:
            judge(c, m, e, n, 'const-argument', 'no-global-write', 'state-owns-storage', nice(m, n))
    # the rule must be able to fire: a non-const operation has to show up as writing its object
    e2 = effects.Effects(m, ['e_Scanner_swap', 'e_Slow_init'])
    c.need(any(o[0] == 'p' for o in e2.sums['e_Scanner_swap'].mod) and any(o[0] == 'P' for o in e2.sums['e_Slow_init'].mod), 'effect analysis sees no writes at all')
    c.cov.update(functions_analysed=len(e.sums), entry_points=len(ents), external_callees=len(e.reach) - len(e.sums), unresolved_indirect_calls=len(e.unknown))
    c.explanation = ('Interprocedural mod/ref and pointer-origin analysis over the LLVM IR of every library translation unit plus an instantiation unit. For each matching '
        'operation of each scanner class the set of memory it may write is computed bottom-up through every callee (virtual calls resolved over all vtables) and '
        'must be confined to the state argument and the containers that argument owns.')
    c.assumptions += ['libstdc++ functions without a body write only through their non-const pointer/reference parameters', 'integers narrower than 64 bits carry no pointers']

def nice(m, n):
    p = n.split('_'); f = m.fns[n]
    ts = f.d['ditypes']
    return '%s() of %s' % (p[-1], common.short(ts[1][0].replace('const ', '').rstrip('*')).replace('Pire::', ''))
