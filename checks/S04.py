"""A failing Load, Mmap or assignment leaves its target as it was."""
import common, flow, V01
from sym import *
DST = A('arg', 9)
OPS = ('load', 'mmap', 'assign')

def module(): return common.norm('e_(%s)_(load|mmap|assign)' % '|'.join(common.SCANNERS), V01.FSMRULES)

def changes(fl, st, root):
    """indices of memory operations that change what lives at root"""
    for n, e in enumerate(st.mem):
        if e[0] == 'havoc':
            if e[1] == root: yield n, 'a call'
            continue
        a = fl.norm(st, e[1])
        if fl.root(a) != root: continue
        if e[0] == 'st' and isinstance(e[3], Lin) and e[3] == A('ld', 0, a, e[2]): continue
        yield n, 'offset %s' % (a - Aid(root))

def run(c):
    m = module(); nl = V01.nulls(m); n = paths = 0; flow.PTR.add(DST.single())
    for name in sorted(m.fns):
        if not name.startswith('e_'): continue
        n += 1
        fl = flow.Flow(m, m.fns[name], static_fns=nl)
        _, k, op = name.split('_')
        w = '%s of %s' % ({'load': 'Load', 'mmap': 'Mmap', 'assign': 'operator='}[op], k)
        for p in fl.run(args={0: DST}):
            if p.end not in ('ret', 'throw'): continue
            paths += 1; st = p.st
            ch = list(changes(fl, st, DST.single()))
            if p.end == 'throw':
                last = [e for e in st.ev if e.k in ('branch', 'throw')]
                c.decide('throw-before-change', not ch, w, 'throws at %s after the target was changed (%s)' % (last[-1].loc if last else '?', ch[0][1] if ch else ''))
                continue
            first = ch[0][0] if ch else None
            late = [e for e in st.ev if e.k == 'maythrow' and first is not None and e.mi > first]
            c.decide('no-failure-after-change', not late, w, '%s may throw at %s after the target was changed (%s)' % (late[0].a[0] if late else '', late[0].loc if late else '', ch[0][1] if ch else ''))
            for e in st.ev:
                if e.k == 'loop' and first is not None and e.mi > first:
                    t = [x for q in e.a[4] for x in q.ev if x.k == 'maythrow']
                    c.decide('no-failure-after-change', not t, w, '%s may throw at %s after the target was changed' % (t[0].a[0] if t else '', t[0].loc if t else ''))
    c.need(n >= 30, 'only %d operations found' % n)
    c.cov.update(operations=n, paths=paths)
