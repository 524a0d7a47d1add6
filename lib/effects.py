"""Interprocedural side-effect and pointer-origin analysis (flow-insensitive, summary based) over the raw IR.

Origins of a value inside a function:
  ('p',k,o)      the pointer passed as parameter k, plus o bytes (None: unknown)
  ('Q',k,off)    obtained by further loads from such a pointer
  ('P',k,off)    a pointer obtained through parameter k; off is the offset of the first load (None: unknown)
  ('g',n)        address of global n            ('G',n)   pointer obtained through global n
  ('a',i,o)      local object i at offset o     ('f',)    memory allocated here or by a callee
A summary gives: mod  {origin: witness}   memory the function may write, in terms of its parameters / globals
                 ret  set of origins      what it may return
                 sto  {dst: set(origin)}  pointers it may leave in that memory
"""
import re
NOEFF = {'strlen', 'memcmp', 'strcmp', 'memchr', 'strchr', 'strncmp', 'abort', 'exit', '_ZSt9terminatev', '__cxa_guard_acquire', '__cxa_guard_release',
         '__cxa_guard_abort', '__cxa_atexit', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_rethrow', '__cxa_free_exception', '__gxx_personality_v0',
         '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '__cxa_throw', '__cxa_call_unexpected', 'pthread_mutex_lock', 'pthread_mutex_unlock', '__cxa_pure_virtual'}
FRESH = {'_Znwm', '_Znam', 'malloc', 'calloc', '__cxa_allocate_exception', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'}

class Sum:
    __slots__ = ('mod', 'ret', 'sto')
    def __init__(self): self.mod = {}; self.ret = set(); self.sto = {}
    def key(self): return (len(self.mod), len(self.ret), sum(len(x) for x in self.sto.values()), len(self.sto))

def split_args(dname):
    d = 0
    for k, c in enumerate(dname):
        if c == '<': d += 1
        elif c == '>' and dname[k-1] != '-': d -= 1
        elif c == '(' and d == 0 and not dname[k:].startswith('(anonymous'):
            e = dname.rfind(')'); s = dname[k+1:e]; tail = dname[e+1:]
            out = []; q = 0; cur = ''
            for x in s:
                if x in '<(': q += 1
                elif x in '>)': q -= 1
                if x == ',' and q == 0: out.append(cur.strip()); cur = ''
                else: cur += x
            if cur.strip(): out.append(cur.strip())
            return out, 'const' in tail
    return None, False

class Effects:
    def __init__(self, mod, entries, vcalls=True, lite=False):
        self.lite = lite      # lite: memory is tracked in local objects only (writes found are certain to go where reported)
        self.m = mod
        self.memo = {}; self.sums = {}; self.callers = {}; self.unknown = {}
        self.vt = self.vtables() if vcalls else {}
        self.reach = set(); work = list(entries)
        while work:
            n = work.pop()
            if n in self.reach: continue
            self.reach.add(n)
            f = mod.fns.get(n)
            if f is None or f.decl: continue
            for _, i in f.instrs():
                for c in self.targets(f, i):
                    self.callers.setdefault(c, set()).add(n)
                    if c not in self.reach: work.append(c)
        for n in self.reach:
            if n in mod.fns and not mod.fns[n].decl: self.sums[n] = Sum()
        self.local = {}
        import heapq
        order = {n: k for k, n in enumerate(self.postorder())}
        heap = [(k, n) for n, k in order.items()]; heapq.heapify(heap); inq = set(order)
        self.rounds = 0
        while heap:
            k, n = heapq.heappop(heap)
            inq.discard(n); self.rounds += 1
            if self.analyse(n):
                for c in self.callers.get(n, ()):
                    if c in self.sums and c not in inq: inq.add(c); heapq.heappush(heap, (order[c], c))
    def postorder(self):
        out = []; seen = set()
        for r in sorted(self.sums):
            if r in seen: continue
            st = [(r, iter(self.callees(r)))]; seen.add(r)
            while st:
                n, it = st[-1]
                for c in it:
                    if c not in seen and c in self.sums:
                        seen.add(c); st.append((c, iter(self.callees(c)))); break
                else: out.append(n); st.pop()
        return out
    def callees(self, n):
        f = self.m.fns[n]; r = []
        for _, i in f.instrs(): r += self.targets(f, i)
        return r
    def vtables(self):
        slots = {}
        for g in self.m.globals.values():
            if g['name'].startswith('_ZTV') and g.get('rel'):
                for off, t in g['rel']:
                    if t in self.m.fns: slots.setdefault((off - 16) // 8, set()).add(t)
        return slots
    def targets(self, f, i):
        if i['o'] not in ('call', 'invoke'): return []
        n = i.get('f')
        if n:
            r = [n] if not n.startswith('llvm.') else []
            # functions passed as arguments may be called
            for a in i.get('a', []):
                if a and a[0] == 'f' and a[1] in self.m.fns: r.append(a[1])
            return r
        s = self.vslot(f, i)
        if s is None: return []
        k = len(i.get('a', [])); rt = i.get('t') or 'void'
        return sorted(t for t in self.vt.get(s, ()) if len(self.m.fns[t].params) == k and self.m.fns[t].d.get('ret') == rt)
    def vslot(self, f, i):
        """slot index of a virtual call: callee = load (gep (load this), 8*slot)"""
        c = i.get('fp')
        if not c or c[0] != 'i': return None
        ld = f.idef.get(c[1])
        if not ld or ld['o'] != 'load' or not ld['a'] or ld['a'][0][0] not in 'i': return None
        a = ld['a'][0]; k = 0; g = f.idef.get(a[1])
        if g and g['o'] == 'getelementptr':
            if g.get('v'): return None
            k = g.get('k') or 0
        elif not (g and g['o'] == 'load'): return None
        return k // 8

    # ---- one function -------------------------------------------------------------------------
    def analyse(self, n):
        f = self.m.fns[n]; s = self.sums[n]; before = s.key()
        L = self.local.get(n)
        if L is None: L = self.local[n] = ({}, {}, self.guarded(f))
        V, C, G = L     # value origins; contents of local/fresh/param/global objects, pointers and integers apart
        self.cur = None
        globs = self.m.globals
        def org(o):
            k = o[0]
            if k == 'i': return V.get(o[1], ())
            if k == 'p': return (('p', o[1], 0),) if f.params[o[1]]['t'] in ('ptr', 'i64') else ()
            if k == 'g':
                g = globs.get(o[1])
                if g and g.get('const') and (not g.get('rel') or o[1].startswith(('_ZTV', '_ZTI', '_ZTS'))): return ()
                return (('g', o[1]),)
            if k == 'ge': return shift(org(o[1]), o[2])
            if k == 'ce': return org(o[2]) if len(o) > 2 and isinstance(o[2], list) else ()
            return ()
        def shift(os_, k):
            if k == 0: return os_
            r = set()
            for x in os_:
                if x[0] in 'pa' and x[2] is not None:
                    n_ = None if k is None or not 0 <= x[2] + k < 2048 else x[2] + k
                    r.add((x[0], x[1], n_))
                else: r.add(x)
            return r
        def put(d, key, vals):
            if not vals: return False
            x = d.get(key)
            if x is None: x = d[key] = set()
            new = [v for v in vals if v not in x and not (v[0] in 'paPQI' and (v[0], v[1], None) in x)]
            if not new: return False
            x.update(new)
            if len(x) > 6:      # too many offsets of one base: forget the offset
                cnt = {}
                for v in x:
                    if v[0] in 'paPQI': cnt[v[:2]] = cnt.get(v[:2], 0) + 1
                for b, n_ in cnt.items():
                    if n_ > 6:
                        for v in [v for v in x if v[:2] == b]: x.discard(v)
                        x.add(b + (None,))
            return True
        def loadfrom(os_, isint=False):
            r = set()
            for x in os_:
                b, o = (x[:2], x[2]) if x[0] in 'pa' else (x, 0)
                for kd in ('ptr', 'int') if isint else ('ptr',):
                    c = C.get((b, kd))
                    if c:
                        for q, v in c.items():
                            if q is None or o is None or q == o: r |= v
                if x[0] == 'p': r.add(('I' if isint else 'P', x[1], x[2]))
                elif x[0] in 'PQI': r.add(('Q', x[1], x[2]))
                elif x[0] == 'g': r.add(('G', x[1]))
                elif x[0] == 'G': r.add(x)
                elif x[0] == 'f': r.add(x)
            return r
        def mod(os_, wit):
            for x in os_:
                if x[0] in ('a', 'f'): continue
                if x[0] in ('g', 'G') and G and (self.bi, x[1]) in G: continue
                if x not in s.mod: s.mod[x] = wit
        def keep(dst, vals, kind='ptr'):
            ch = False
            if not vals: return False
            for x in dst:
                if self.lite and x[0] != 'a': continue
                b, o = (x[:2], x[2]) if x[0] in 'pa' else (x, 0)
                ch |= put(C.setdefault((b, kind), {}), o, vals)
            return ch
        changed = True
        while changed:
            changed = False
            for bi, i in f.instrs():
                o = i['o']; d = i['i']; self.bi = bi
                if o == 'alloca': changed |= put(V, d, (('a', d, 0),))
                elif o in ('getelementptr',): changed |= put(V, d, shift(org(i['a'][0]), None if i.get('v') else i.get('k') or 0))
                elif o in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'): changed |= put(V, d, org(i['a'][0]))
                elif o in ('add', 'sub', 'and', 'or'):
                    if i.get('w') == 64:
                        for x in i['a']: changed |= put(V, d, shift(org(x), None))
                elif o == 'phi':
                    if i.get('t') == 'ptr' or i.get('w') == 64:
                        for x, _ in i['in']: changed |= put(V, d, org(x))
                elif o == 'select':
                    for x in i['a'][1:]: changed |= put(V, d, org(x))
                elif o == 'load':
                    if i['s'] >= 8: changed |= put(V, d, loadfrom(org(i['a'][0]), i.get('t') != 'ptr'))
                elif o == 'store':
                    dst = org(i['a'][1]); mod(dst, (i, None))
                    if i['s'] >= 8: changed |= keep(dst, org(i['a'][0]), 'ptr' if self.isptr(f, i['a'][0]) else 'int')
                elif o in ('atomicrmw', 'cmpxchg'):
                    mod(org(i['a'][0]), (i, None))
                elif o in ('extractvalue', 'insertvalue'):
                    for x in i['a']: changed |= put(V, d, org(x))
                elif o in ('call', 'invoke'):
                    changed |= self.do_call(f, i, s, C, org, put, mod, keep, loadfrom, V, shift)
                elif o == 'ret':
                    if i.get('a'): s.ret |= set(org(i['a'][0]))
        # what is left in caller-visible memory
        for x, c in C.items():
            if x[0][0] != 'a':
                for q, v in c.items(): s.sto.setdefault((x[0] + (q,) if x[0][0] == 'p' else x[0], x[1]), set()).update(v)
        # allocas must not leak as such
        s.ret = {x for x in s.ret if x[0] != 'a'} 
        for x in s.sto: s.sto[x] = {y for y in s.sto[x] if y[0] != 'a'}
        return s.key() != before

    def do_call(self, f, i, s, C, org, put, mod, keep, loadfrom, V, shift):
        n = i.get('f'); d = i['i']; args = [org(x) for x in i.get('a', [])]
        ch = False
        memo = (sum(len(x) for c_ in C.values() for x in c_.values()), tuple(len(a) for a in args), len(V.get(d, ())), n and n in self.sums and self.sums[n].key())
        mk = (f.name, i['i'])
        if self.memo.get(mk) == memo: return False
        self.memo[mk] = memo
        if n and n.startswith('llvm.'):
            if n.startswith(('llvm.memcpy', 'llvm.memmove')):
                mod(args[0], (i, None)); ch |= self.copymem(args[0], args[1], i['a'][2], C, keep, loadfrom)
            elif n.startswith('llvm.memset'): mod(args[0], (i, None))
            return ch
        ts = self.targets(f, i)
        if n is None and not ts:
            self.unknown.setdefault((f.name, i['i']), i)
            for a in args: mod(a, (i, None))
            return ch
        if n is not None: ts = [n]
        for t in ts:
            if t in FRESH: ch |= put(V, d, (('f',),)); continue
            if t in NOEFF or t.startswith(('__cxa_guard', '__cxa_begin', '__clang_call_terminate')): continue
            if t in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'memset'):
                mod(args[0], (i, None)); ch |= put(V, d, args[0])
                if t != 'memset': ch |= self.copymem(args[0], args[1], i['a'][2], C, keep, loadfrom)
                continue
            S = self.sums.get(t)
            if S is None:       # external
                fn = self.m.fns.get(t)
                al, cst = split_args(fn.dname if fn else t)
                isf = fn is not None and al is not None and (fn.dname.startswith('std::') or fn.d.get('scope') or '::' in fn.dname.split('(')[0])
                meth = al is not None and len(args) == len(al) + 1
                for k, a in enumerate(args):
                    if isf:
                        if meth and k == 0 and cst: continue
                        q = al[k - 1] if meth and k > 0 else al[k] if not meth and k < len(al) else ''
                        if q.endswith(('const&', 'const*')): continue
                    mod(a, (i, t))
                for a in args: ch |= put(V, d, a)
                ch |= put(V, d, loadfrom([x for a in args for x in a]))
                continue
            def tr(x):
                if x[0] == 'p': return shift(args[x[1]], x[2]) if x[1] < len(args) else ()
                if x[0] in 'PI':
                    if x[1] >= len(args): return ()
                    return loadfrom(shift(args[x[1]], x[2]), x[0] == 'I')
                if x[0] == 'Q':
                    if x[1] >= len(args): return ()
                    d1 = loadfrom(shift(args[x[1]], x[2])); deep = set()
                    for _ in range(3):
                        d1 = loadfrom(d1)
                        if d1 <= deep: break
                        deep |= d1
                    return deep
                return (x,)
            for x in list(S.mod):
                y = tr(x)
                mod(y, (i, t))
            for x in list(S.ret): ch |= put(V, d, tr(x))
            for (dst, kind), vals in list(S.sto.items()) if not self.lite else ():
                dd = tr(dst)
                if not dd: continue
                vv = set()
                for v in list(vals): vv.update(tr(v))
                ch |= keep(dd, vv, kind)
        return ch
    def copymem(self, dst, src, n, C, keep, loadfrom):
        ch = False
        for x in src:
            if x[0] in 'pa' and x[2] is not None and all(y[0] in 'pa' and y[2] is not None for y in dst):
                for kd in ('ptr', 'int'):
                    for q, v in list((C.get((x[:2], kd)) or {}).items()):
                        if q is None or q >= x[2]:
                            ch |= keep([(y[0], y[1], None if q is None else y[2] + q - x[2]) for y in dst], set(v), kd)
                if x[0] == 'p': ch |= keep([(y[0], y[1], None) for y in dst], {('P', x[1], x[2])}); ch |= keep([(y[0], y[1], None) for y in dst], {('I', x[1], x[2])}, 'int')
            else:
                ch |= keep([y[:2] + (None,) if y[0] in 'pa' else y for y in dst], loadfrom([x[:2] + (None,) if x[0] in 'pa' else x]))
                ch |= keep([y[:2] + (None,) if y[0] in 'pa' else y for y in dst], loadfrom([x[:2] + (None,) if x[0] in 'pa' else x], True), 'int')
        return ch
    def isptr(self, f, o):
        if o[0] == 'i':
            i = f.idef[o[1]]
            return i.get('t') == 'ptr'
        if o[0] == 'p': return f.params[o[1]]['t'] == 'ptr'
        return o[0] in ('g', 'ge', 'f', 'n')
    def guarded(self, f):
        """(block, global) pairs: block runs only between __cxa_guard_acquire and release for that global"""
        r = set(); acq = []
        for bi, i in f.instrs():
            if i.get('f') == '__cxa_guard_acquire' and i['a'][0][0] == 'g': acq.append((bi, i))
        if not acq: return r
        import flow
        dom, preds = flow.dominators(f)
        for bi, i in acq:
            t = f.blocks[bi][-1]
            if t['o'] != 'br' or len(t['d']) != 2: continue
            # branch on (result != 0): d[0] taken when initialisation is ours
            c = f.idef.get(t['a'][0][1]) if t['a'][0][0] == 'i' else None
            if not c or c['o'] != 'icmp' or c['a'][0] != ['i', i['i']]: continue
            tgt = t['d'][0] if c['p'] == 'ne' else t['d'][1]
            if len(preds[tgt]) != 1: continue
            var = '_Z' + i['a'][0][1][len('_ZGV'):]
            for b in dom:
                x = b
                while True:
                    if x == tgt: r.add((b, var)); break
                    if x == 0 or dom.get(x) is None: break
                    x = dom[x]
        return r
    def direct_globals(self, n):
        """instruction id -> globals whose address (or whose stored pointer, '*') the value is, without going through other memory"""
        f = self.m.fns[n]; D = {}
        def of(o):
            if o[0] == 'g':
                g = self.m.globals.get(o[1])
                return {(o[1], '')} if g and not g.get('const') else set()
            if o[0] == 'ge': return of(o[1])
            if o[0] == 'i': return D.get(o[1], set())
            return set()
        ch = True
        while ch:
            ch = False
            for _, i in f.instrs():
                o = i['o']; r = set()
                if o in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr'): r = of(i['a'][0])
                elif o == 'phi': r = set().union(*[of(x) for x, _ in i['in']])
                elif o == 'select': r = of(i['a'][1]) | of(i['a'][2])
                elif o == 'load' and i.get('t') == 'ptr': r = {(g, '*') for g, k in of(i['a'][0])}
                elif o in ('call', 'invoke') and i.get('t') == 'ptr' and i.get('f') in self.sums:
                    for x in self.sums[i['f']].ret:
                        if x[0] == 'g': r.add((x[1], ''))
                        elif x[0] == 'G': r.add((x[1], '*'))
                        elif x[0] == 'p' and x[1] < len(i['a']): r |= of(i['a'][x[1]])
                        elif x[0] in 'PQI' and x[1] < len(i['a']): r |= {(g, '*') for g, k in of(i['a'][x[1]])}
                if r - D.get(i['i'], set()): D.setdefault(i['i'], set()).update(r); ch = True
        return D, of
    def global_writes(self, n):
        """(instr, global, kind, callee) writes of function n to process-wide objects it names itself"""
        f = self.m.fns[n]; D, of = self.direct_globals(n); G = self.local[n][2]; out = []
        for bi, i in f.instrs():
            o = i['o']
            def rep(gs, callee):
                for g, k in gs:
                    if (bi, g) in G: continue
                    out.append((i, g, k, callee))
            if o == 'store': rep(of(i['a'][1]), None)
            elif o in ('atomicrmw', 'cmpxchg'): continue
            elif o in ('call', 'invoke'):
                t = i.get('f') or ''
                if t.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')): rep(of(i['a'][0]), None); continue
                if t.startswith('llvm.') or t.startswith('__cxa_'): continue
                for cal in ([t] if t else self.targets(f, i)):
                    S = self.sums.get(cal)
                    if S is None:
                        if cal in NOEFF or cal in FRESH: continue
                        fn = self.m.fns.get(cal); al, cst = split_args(fn.dname if fn else cal)
                        meth = al is not None and len(i['a']) == len(al) + 1
                        for k, a in enumerate(i['a']):
                            if not of(a): continue
                            if meth and k == 0 and cst: continue
                            q = (al[k - 1] if meth and k else al[k] if al and k < len(al) else '') if al is not None else ''
                            if q.endswith(('const&', 'const*')): continue
                            rep(of(a), cal)
                        continue
                    for x in S.mod:
                        if x[0] in 'pPQI' and x[1] < len(i['a']): rep(of(i['a'][x[1]]), cal)
        return out
    def trace(self, n, org, depth=0):
        """call chain that leads to the write of `org` in function n"""
        out = []
        while n in self.sums and depth < 30:
            w = self.sums[n].mod.get(org)
            if not w: break
            i, t = w; f = self.m.fns[n]
            out.append('%s: in %s%s' % (f.loc(i), f.qname, '' if t is None else ' calling ' + (self.m.fns[t].qname if t in self.m.fns else t)))
            if t is None or t not in self.sums: break
            # find the callee origin that maps onto org
            nxt = None
            for x in self.sums[t].mod:
                if x == org and x[0] in 'gG': nxt = x; break
            if nxt is None:
                for x in self.sums[t].mod:
                    if x[0] in 'pP': nxt = x; break
            if nxt is None: break
            n, org = t, nxt; depth += 1
        return out
