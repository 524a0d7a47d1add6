"""No unsynchronised process-wide mutable state anywhere in the library."""
import re
import common, effects

def run(c):
    m = common.raw()
    ents = sorted(n for n, f in m.fns.items() if not f.decl and (n.startswith('e_') or (f.file.startswith(common.build.REPO) and not f.d.get('internal') and '__cxx_global_var_init' not in n and not n.startswith('_GLOBAL__'))))
    e = effects.Effects(m, ents)
    # who may write a global: dynamic initialisers (before main) and guarded local initialisation only
    written = {}
    nguard = 0
    for n, s in e.sums.items():
        f = m.fns[n]
        G = e.local[n][2]
        nguard += len({v for _, v in G})
        seen = set()
        for i, gn, k, t in e.global_writes(n):
            g = m.globals.get(gn, {})
            if g.get('tls') or not repo_global(m, g, gn) or (gn, i['i']) in seen: continue
            seen.add((gn, i['i']))
            c.bad('no-unsynchronised-global-write', f.loc(i), '%s %s %s%s outside its one-time guarded initialisation' % (common.short(f.qname), 'writes' if t is None else 'calls %s, which modifies,' % common.short(m.fns[t].qname if t in m.fns else t), 'the object pointed to by ' if k else '', g.get('dname', gn)))
    for n in e.sums:
        if m.fns[n].file.startswith(common.build.REPO): c.ok('no-unsynchronised-global-write')
    c.need(nguard >= 5, 'no guarded initialisations recognised')
    # every guarded static in the library keeps its guard (compiled with thread-safe statics)
    mut = [g for g in m.globals.values() if not g.get('const') and not g.get('decl') and repo_global(m, g, g['name']) and not g['name'].startswith(('_ZGV', '_ZTV', 'llvm.'))]
    for g in mut: c.ok('mutable-object-enumerated', g['dname'])
    c.need(len(mut) >= 5, 'mutable globals not found')
    # objects that exist once per process: nothing but their own construction may write them, through whatever pointer
    shared = set()
    for g in m.globals.values():
        if g.get('decl') or not repo_global(m, g, g['name']): continue
        t = tname(g.get('ty') or '')
        single = 'Singleton<' in (g.get('scope') or '')
        if (single and (g.get('ty') or '').endswith('*') or not (g.get('ty') or '').endswith(('*', ']'))) and 'Scanner' not in t and not re.match(r'(Pire::)?T(Vector|Set|Map|Deque|List|HashMap|HashSet)<', t) and any(tname(k) == t for k in m.classes): shared.add(t)
    c.need(len(shared) >= 4, 'process-wide object types not found')
    def initonly(n, t, seen):
        f = m.fns[n]
        last = common.short(f.qname).split('::')[-1]; cls = common.short(t).split('::')[-1]
        if last.lstrip('~') == cls or '__cxx_global_var_init' in n or n.startswith('_GLOBAL__'): return True
        if n in seen: return True
        cs = [x for x in e.callers.get(n, ()) if x in e.sums]
        return bool(cs) and all(initonly(x, t, seen | {n}) for x in cs)
    for n, s in e.sums.items():
        f = m.fns[n]; ts = f.d.get('ditypes') or []
        if f.params and f.params[0].get('sret'): ts = [None, [ts[0][0] + ' result'] if ts else None] + ts[1:]
        for o in sorted(s.mod, key=str):
            if o[0] not in 'pPQI' or o[1] + 1 >= len(ts) or not ts[o[1] + 1]: continue
            t = tname(ts[o[1] + 1][0]); hit = t if t in shared else None
            if not hit and o[0] == 'P' and o[2] is not None:
                for k in class_of(m, t):
                    for x in k['members']:
                        if x['o'] == o[2] and x['t'].rstrip().endswith(('*', '&')) and tname(x['t']) in shared: hit = tname(x['t'])
            if hit and not initonly(n, hit, frozenset()):
                tr = e.trace(n, o)
                c.bad('shared-object-immutable', tr[-1] if tr else n, '%s modifies the process-wide %s object after its construction' % (common.short(f.qname), hit), tr)
    for t in shared: c.ok('shared-object-immutable', t)
    c.cov.update(functions_analysed=len(e.sums), entry_points=len(ents), mutable_globals=len(mut), guarded_initialisations=nguard, unresolved_indirect_calls=len(e.unknown))
    c.explanation = ('Whole-library effect analysis: every function reachable from the public API is checked for stores, memory copies and calls to modifying functions whose target is a static or '
        'namespace-scope object (or memory reached through one); only compiler-guarded one-time initialisation is accepted.')
    c.assumptions += ['dynamic initialisers of namespace-scope objects run before any library call', 'libstdc++ streams and locale objects are not counted as library state']

def repo_global(m, g, n):
    d = g.get('dname', n)
    return not d.startswith(('std::', '__gnu_cxx', 'vtable for', 'typeinfo')) and not n.startswith(('_ZSt', '_ZNSt', '_ZTI', '_ZTV', 'stderr', 'stdout', '__dso'))

def tname(t):
    t = t.replace('(anonymous namespace)', '(anonymous)').replace('const ', '').replace('volatile ', '').strip()
    while t.endswith(('*', '&', ' ')): t = t[:-1]
    return t[:-6] if t.endswith(' const') else t

_cls = {}
def class_of(m, t):
    if not _cls:
        for k, v in m.classes.items(): _cls.setdefault(tname(k), []).append(v)
    return _cls.get(t, [])
