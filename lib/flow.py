"""Path-sensitive value-numbering dataflow over normalised IR functions.

Abstract interpretation over canonical linear value numbers (sym.py).  Branch conditions are compared
syntactically after canonicalisation (no solver); loops are cut at their headers after every loop-carried
value has been classified (invariant / induction / unknown); memory is a log of stores, copies and reads
resolved by base object and offset.  Distinct base objects are taken not to overlap (stated in DESIGN.md).
"""
import itertools
from sym import *
import sym

class Limit(Exception): pass

class St:
    __slots__ = ('env', 'mem', 'facts', 'sub', 'ev', 'cont', 'bi', 'ii', 'prev', 'loops', 'nread', 'ver', 'info')
    def copy(self):
        n = St()
        n.env = dict(self.env); n.mem = list(self.mem); n.facts = dict(self.facts); n.sub = self.sub
        n.ev = list(self.ev); n.cont = dict(self.cont); n.bi = self.bi; n.ii = self.ii; n.prev = self.prev
        n.loops = self.loops; n.nread = self.nread; n.ver = self.ver; n.info = dict(self.info)
        return n

class Event:
    __slots__ = ('k', 'a', 'ins', 'loc', 'loops', 'mi')
    def __init__(self, k, a, ins, loc, loops, mi):
        self.k = k; self.a = a; self.ins = ins; self.loc = loc; self.loops = loops; self.mi = mi
    def __repr__(self): return '%s(%s)' % (self.k, ', '.join(map(str, self.a)))

class Path:
    """a maximal trace: events, final state, how it ended (ret / throw / abort / backedge)"""
    __slots__ = ('st', 'end', 'val')
    def __init__(self, st, end, val): self.st = st; self.end = end; self.val = val

_fresh = itertools.count(1)
PTR = set()      # atom ids known to be pointers

def dominators(f):
    n = len(f.blocks); preds = [[] for _ in range(n)]
    for b in range(n):
        for s in f.succ(b): preds[s].append(b)
    order = []; seen = set()
    stack = [(0, iter(f.succ(0)))]; seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen: seen.add(s); stack.append((s, iter(f.succ(s)))); break
        else: order.append(b); stack.pop()
    rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
    dom = {0: 0}; ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in dom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]: x = dom[x]
                            while idx[y] > idx[x]: y = dom[y]
                        new = x
            if dom.get(b) != new: dom[b] = new; ch = True
    return dom, preds

def natural_loops(f):
    dom, preds = dominators(f)
    def dominates(a, b):
        while True:
            if a == b: return True
            if b == 0 or b not in dom: return False
            b = dom[b]
    loops = {}
    for b in dom:
        for s in f.succ(b):
            if dominates(s, b):
                body = loops.setdefault(s, {s}); st = [b]
                while st:
                    x = st.pop()
                    if x not in body: body.add(x); st.extend(p for p in preds[x] if p in dom)
    return loops

class Flow:
    MAXPATHS = 6000
    def __init__(self, mod, fn, models=None, static_fns=(), follow_unwind=False, on_call=None):
        self.m = mod; self.f = fn
        self.loops = natural_loops(fn)
        self.models = models or {}
        self.static_fns = set(static_fns)
        self.on_call = on_call
        self.follow_unwind = follow_unwind
        self.steps = 0; self.nloops = 0; self.blocks_seen = set()
        self.assume = set()

    # ---- values ---------------------------------------------------------------------------
    def norm(self, st, l):
        if not st.sub or not l.t: return l
        return subst(l, st.sub)
    def ncond(self, st, c):
        if c is True or c is False or not st.sub: return c
        return subst_cond(c, st.sub)
    def decide(self, st, c):
        c = self.ncond(st, c)
        if c is True or c is False: return c
        if c[0] in ('and', 'or'):
            x = self.decide(st, c[1]); y = self.decide(st, c[2])
            r = None
            if c[0] == 'and':
                if x is False or y is False: r = False
                elif x is True and y is True: r = True
            else:
                if x is True or y is True: r = True
                elif x is False and y is False: r = False
            return r if r is None or not c[3] else not r
        k = (c[0], c[1], c[2])
        v = st.facts.get(k)
        if v is None and c[0] in ('ult', 'slt'):
            r = st.facts.get((c[0], c[2], c[1]))
            if r is True: v = False
            elif st.facts.get(('eq',) + cond_cmp('eq', c[1], c[2])[1:3] if not isinstance(cond_cmp('eq', c[1], c[2]), bool) else None) is True: v = False
        if v is None and c[0] == 'eq' and c[2] == 64 and nonnull(c[1]): v = False
        if v is None and c[0] == 'eq' and c[2] == 64 and newborn(c[1]): v = False
        if v is None and c[0] == 'eq':
            r = self.range_of(st, c[1])
            if r and (r[0] == r[1] == 0): v = True
            elif r and (r[0] > 0 or r[1] < 0): v = False
        if v is None: return None
        return v != c[3]
    def range_of(self, st, l):
        """interval of (narrow unsigned atom + constant), or None"""
        if len(l.t) != 1 or len(l.t[0][0]) != 1: return None
        a = l.t[0][0][0]; k = l.t[0][1]; k = k - (1 << 64) if k >> 63 else k
        if k not in (1, -1): return None
        w = width(a)
        if w >= 63: return None
        off = l.sconst if l.t == () else (l.c - (1 << 64) if l.c >> 63 else l.c)
        lo, hi = 0, (1 << w) - 1
        x = Aid(a); ne = set()
        for (p, u, v), tv in st.facts.items():
            if p in ('slt', 'ult'):
                if u == x and v.const is not None and v.c < 1 << 62:
                    if tv: hi = min(hi, v.c - 1)
                    else: lo = max(lo, v.c)
                elif isinstance(v, Lin) and v == x and u.const is not None and u.c < 1 << 62:
                    if tv: lo = max(lo, u.c + 1)
                    else: hi = min(hi, u.c)
            elif p == 'eq' and tv is False and len(u.t) == 1 and u.t[0][0] == (a,):
                kk = u.t[0][1]; kk = kk - (1 << 64) if kk >> 63 else kk
                cc = u.c - (1 << 64) if u.c >> 63 else u.c
                if kk in (1, -1): ne.add(-cc * kk)
        for _ in range(4):
            if lo in ne: lo += 1
            if hi in ne: hi -= 1
        return (lo + off, hi + off) if k == 1 else (off - hi, off - lo)
    def assume_cond(self, st, c, truth):
        """list of states in which c has the given truth value"""
        c = self.ncond(st, c)
        if c is True or c is False: return [st] if c == truth else []
        if c[0] in ('and', 'or'):
            t = truth != c[3]
            conj = (c[0] == 'and') == t     # both hold (and/true) or both fail (or/false)
            want = (c[0] == 'and')
            if conj:
                r = []
                for s in self.assume_cond(st, c[1], want): r += self.assume_cond(s, c[2], want)
                return r
            r = self.assume_cond(st.copy(), c[1], not want)
            for s in self.assume_cond(st.copy(), c[1], want): r += self.assume_cond(s, c[2], not want)
            return r
        d = self.decide(st, c)
        if d is not None:
            if d == truth and c[0] == 'eq' and truth != c[3] and (c[0], c[1], c[2]) not in st.facts: self.learn_eq(st, c[1], c[2])
            return [st] if d == truth else []
        t = truth != c[3]
        st.facts = dict(st.facts)
        st.facts[(c[0], c[1], c[2])] = t
        if c[0] == 'eq' and t and c[2] == 64: self.learn_eq(st, c[1])
        elif c[0] == 'eq' and t:
            # narrow equality: usable when both sides are narrow values
            self.learn_eq(st, c[1], c[2])
        return [st]
    def learn_eq(self, st, d, w=64):
        """d == 0: solve for an atom"""
        best = None
        for m, k in d.t:
            if len(m) != 1: continue
            s = k - (1 << 64) if k >> 63 else k
            if s not in (1, -1): continue
            a = m[0]
            rest = (d - Aid(a).scale(k)).scale(-s)
            if occurs(a, rest): continue
            if w < 64:
                # a == rest (mod 2^w); sound as 64-bit when both fit in w bits
                if width(a) > w: continue
                if rest.const is None:
                    x = rest.single()
                    if x is None or width(x) > w: continue
                else: rest = lin(rest.c & ((1 << w) - 1))
            t = atom_of(a)
            rank = {'ad': 5, 'bool': 0, 'phi': 4, 'it': 4, 'hv': 4, 'in': 3, 'ld': 2, 'ret': 2}.get(t[0], 1)
            if best is None or rank > best[0]: best = (rank, a, rest)
        if best:
            st.sub = dict(st.sub); new = {best[1]: best[2]}
            for k2 in list(st.sub): st.sub[k2] = subst(st.sub[k2], new)
            st.sub[best[1]] = best[2]
            # canonicalise existing facts under the new equality
            st.facts = {fk2: fv for fk, fv in st.facts.items() for fk2, fv in self._nf(fk, fv, new)}
    def _nf(self, fk, fv, new):
        if fk[0] in ('and', 'or'): return [(fk, fv)]
        c = subst_cond((fk[0], fk[1], fk[2], False), new)
        if c is True or c is False: return []
        return [((c[0], c[1], c[2]), fv != c[3])]

    def val(self, st, o):
        k = o[0]
        if k == 'i':
            v = st.env.get(o[1])
            if v is None: v = A('hv', 'undef', o[1], 64)
            return v
        if k == 'p': return self.args[o[1]]
        if k == 'c': return lin(o[1])
        if k == 'C': return lin(int(o[1]))
        if k == 'n': return ZERO
        if k == 'g':
            a = A('glob', o[1]); PTR.add(a.single()); return a
        if k == 'f': return A('fn', o[1])
        if k == 'ge': return self.val(st, o[1]) + o[2]
        if k == 'u': return A('undef',)
        if k == 'agg': return ('agg', [self.val(st, x) for x in o[1:]])
        if k == 'zero': return ZERO
        if k == 'ce':
            if o[1] in ('inttoptr', 'ptrtoint', 'bitcast'): return self.val(st, o[2])
            return A('ce', str(o))
        return A('cst', str(o))

    # ---- addresses ------------------------------------------------------------------------
    def root(self, l):
        r = roots(l)
        return r[0] if len(r) == 1 else None

    # ---- memory ---------------------------------------------------------------------------
    def load(self, st, addr, size, upto=None, isptr=False):
        addr = self.norm(st, addr)
        v = self._load(st, addr, size, len(st.mem) if upto is None else upto)
        v = self.norm(st, v)
        if isptr:
            s = v.single()
            if s is not None: PTR.add(s)
        return v
    def _load(self, st, addr, size, n):
        rt = self.root(addr)
        for i in range(n - 1, -1, -1):
            e = st.mem[i]; k = e[0]
            if k == 'havoc':
                if e[1] is None:
                    if rt is not None and not self.escaped(st, rt, e): continue
                    return A('ld', e[2], addr, size)
                if rt is None or rt == e[1]: return A('ld', e[2], addr, size)
                continue
            ea = self.norm(st, e[1]); en = e[2] if isinstance(e[2], int) else self.norm(st, e[2])
            if not isinstance(en, int) and en.const is not None: en = en.c
            d = addr - ea; c = d.sconst
            if c is None:
                er = self.root(ea)
                if rt is not None and er is not None and rt != er: continue
                r = self.disjoint(st, d, size, en)
                if r: continue
                if not isinstance(en, int) or k in ('cp', 'in', 'set') :
                    r = self.inside(st, d, size, en)
                    if r is not None and r:
                        return self._from_region(st, e, i, d, addr, size)
                return A('mix', i, addr, size)
            if isinstance(en, int):
                if c >= en or c + size <= 0: continue
                if c < 0 or c + size > en:
                    # straddles: assemble from halves
                    if size in (2, 4, 8):
                        h = size // 2
                        lo = self._load(st, addr, h, n); hi = self._load(st, addr + h, h, n)
                        return lo + hi.scale(1 << (8 * h)) if not (lo.const is None and hi.const is None) or True else None
                    return A('mix', i, addr, size)
            else:
                if c + size <= 0: continue
                if c < 0: return A('mix', i, addr, size)
                self.assume.add('access at +%d of a region of symbolic size lies inside it' % c)
            return self._from_region(st, e, i, d, addr, size)
        if rt is not None and atom_of(rt)[0] in ('alloca', 'new'): return A('undef', addr, size)
        return A('ld', 0, addr, size)
    def _from_region(self, st, e, i, d, addr, size):
        k = e[0]
        if k == 'st':
            v = e[3]
            if not isinstance(v, Lin): return A('mix', i, addr, size)
            c = d.c
            if c == 0 and size == e[2]: return v
            if v.const is not None: return lin((v.c >> (8 * c)) & ((1 << (8 * size)) - 1))
            if c == 0: return trunc(v, 8 * size)
            x = lshr(v, 8 * c, 8 * e[2])
            return trunc(x, 8 * size)
        if k == 'cp':
            return self._load(st, self.norm(st, e[3]) + d, size, e[4])
        if k == 'in': return A('in', e[3], d, size)
        if k == 'set':
            if e[3].const is not None:
                b = e[3].c & 255; return lin(int.from_bytes(bytes([b] * size), 'little'))
            return A('mix', i, addr, size)
        return A('mix', i, addr, size)
    def disjoint(self, st, d, size, en):
        """d = addr - region start is symbolic: provably outside?"""
        # d >= en when d - en has only non-negative coefficients
        x = d - (en if not isinstance(en, int) else lin(en))
        if nonneg(x) or nonneg(-d - lin(size)): return True
        if d.c == 0 and nonneg(-d) and any(size <= (1 << 64) - k < 1 << 32 for _, k in d.t):
            self.assume.add('an array of symbolic size followed by another is not empty when it is accessed')
            return True
        return False
    def inside(self, st, d, size, en):
        if not nonneg(d): return None
        if isinstance(en, int): return None
        return True
    def escaped(self, st, rt, e):
        t = atom_of(rt)
        if t[0] in ('alloca', 'new'): return rt in e[3]
        return True

    def store(self, st, addr, size, v, ins=None):
        st.mem.append(('st', self.norm(st, addr), size, v))
    def havoc(self, st, root):
        st.mem.append(('havoc', root, next(_fresh)))
    # ---- events -----------------------------------------------------------------------------
    def event(self, st, k, a, ins):
        st.ev.append(Event(k, a, ins, self.f.loc(ins), st.loops, len(st.mem)))

    # ---- execution ---------------------------------------------------------------------------
    def run(self, args=None, pre=None):
        self.args = []
        for n, p in enumerate(self.f.params):
            if args and n in args: self.args.append(args[n]); continue
            t = p['t']
            if t == 'ptr': a = A('arg', n); PTR.add(a.single())
            elif t.startswith('i') and int(t[1:]) < 64: a = A('argw', n, int(t[1:]))
            else: a = A('arg', n)
            self.args.append(a)
        st = St(); st.env = {}; st.mem = []; st.facts = {}; st.sub = {}; st.ev = []; st.cont = {}; st.bi = 0; st.ii = 0; st.prev = None; st.loops = (); st.nread = 0; st.ver = 0; st.info = {}
        if pre: pre(self, st)
        self.paths = []
        self.explore([st], None, self.paths, None)
        return self.paths

    def explore(self, work, body, out, backedge):
        """body: restrict to a loop body (exits dropped); backedge: list collecting states returning to `body`'s header"""
        while work:
            st = work.pop()
            self.step_block(st, work, body, out, backedge)
            self.steps += 1
            if self.steps > self.MAXPATHS: raise Limit('too many paths in %s' % self.f.name)

    def goto(self, st, target, work, body, out, backedge):
        src = st.bi
        while st.loops and target not in self.loops[st.loops[-1][0]]:
            st.loops = st.loops[:-1]
        if st.loops and target == st.loops[-1][0]:
            # back edge of the loop being cut
            if backedge is not None and backedge[0] == target:
                self.phis(st, target, src); backedge[1].append(st)
            else:
                self.phis(st, target, src)
                self.event(st, 'backedge', (target,), self.f.blocks[src][-1]); out.append(Path(st, 'backedge', None))
            return
        if body is not None and target not in body: return
        if target in self.loops:
            self.phis(st, target, src)
            self.enter_loop(st, target, work, body, out, backedge)
            return
        self.phis(st, target, src)
        st.bi = target; st.ii = 0
        work.append(st)

    def phis(self, st, target, src):
        new = {}
        for i in self.f.blocks[target]:
            if i['o'] != 'phi': break
            for o, b in i['in']:
                if b == src: new[i['i']] = self.val(st, o); break
        for k, v in new.items():
            st.env[k] = self.norm(st, v) if isinstance(v, Lin) else v

    def enter_loop(self, st, H, work, body, out, backedge):
        self.nloops += 1
        lb = self.loops[H]
        phis = [i for i in self.f.blocks[H] if i['o'] == 'phi']
        uid = next(_fresh)
        init = {i['i']: st.env[i['i']] for i in phis}
        cells = {}      # (addr) -> size : invariant cells written in the loop
        hroots = set(); wild = False
        for rnd in range(8):
            p = st.copy(); p.bi = H; p.ii = 0; p.loops = st.loops + ((H, uid),)
            p.mem = list(p.mem)
            marks = {}
            for i in phis:
                w = i.get('w', 64)
                a = A('phi', uid, i['i'], w); marks[i['i']] = a
                if i.get('t') == 'ptr' or (isinstance(init[i['i']], Lin) and roots(init[i['i']])): PTR.add(a.single()) if i.get('t') == 'ptr' else None
                p.env[i['i']] = a
            for r in hroots: p.mem.append(('havoc', r, uid * 1000003 % (1 << 40)))
            if wild: p.mem.append(('havoc', None, uid * 1000003 % (1 << 40), frozenset(self.esc(st))))
            cm = {}
            for (a, n) in cells:
                m = A('phi', uid, ('m', a, n), min(64, 8 * n)); cm[(a, n)] = m
                p.mem.append(('st', a, n, m))
            base = len(p.mem); p.ev = []
            be = (H, [])
            sink = []
            self.explore([p], lb, sink, be)
            # discover writes
            changed = False
            for q in be[1] + [x.st for x in sink]:
                for e in q.mem[base:]:
                    if e[0] == 'havoc':
                        if e[1] is None:
                            if not wild: wild = True; changed = True
                        elif not self.varies(Aid(e[1]), uid) and e[1] not in hroots and not self.local_in(e[1], uid, st): hroots.add(e[1]); changed = True
                        continue
                    a = self.norm(q, e[1]); n = e[2]
                    r = self.root(a)
                    if r is not None and self.fresh_in(r, p, q): continue
                    if self.varies(a, uid) or not isinstance(n, int) or n > 8:
                        if r is None:
                            if not wild: wild = True; changed = True
                        elif self.varies(Aid(r), uid):
                            # the root itself varies: base object unknown
                            r0 = self.phi_root(r, init, uid)
                            if r0 is None:
                                if not wild: wild = True; changed = True
                            elif r0 not in hroots: hroots.add(r0); changed = True
                        elif r not in hroots: hroots.add(r); changed = True
                    elif (a, n) not in cells: cells[(a, n)] = 1; changed = True
            if not changed: break
        else: raise Limit('no fixed point of what a loop writes in %s' % self.f.name)
        ends = be[1]
        # classify loop-carried values
        vec = {}
        items = [(('v', k), marks[k], init[k]) for k in marks] + [(('m', c), cm[c], self._load(st, c[0], c[1], len(st.mem))) for c in cells]
        final = {}
        groups = {}
        for key, m, v0 in items:
            if not isinstance(v0, Lin): final[key] = A('hv', 'agg', next(_fresh), 64); continue
            ds = []; ok = True; sh = None
            for q in ends:
                e = self.norm(q, q.env[key[1]]) if key[0] == 'v' else self._load(q, key[1][0], key[1][1], len(q.mem))
                if not isinstance(e, Lin): ok = False; break
                mm = self.norm(q, m)
                d = e - mm
                if self.varies(d, uid):
                    x = e.single(); t = atom_of(x) if x is not None else None
                    if t and t[0] == 'bin' and t[1] == 'lshr' and t[3] == m and t[4].const is not None and (sh is None or sh == t[4].c): sh = t[4].c; ds.append(None); continue
                    if t and t[0] == 'w':
                        d2 = t[2] - m
                        if not self.varies(d2, uid): ds.append(d2); continue
                    ok = False; break
                ds.append(d)
            if not ok or not ends: final[key] = v0 if not ends else None; 
            elif sh is not None and all(x is None for x in ds): final[key] = ('sh', sh)
            elif any(x is None for x in ds): final[key] = None
            elif all(d == ZERO for d in ds): final[key] = v0
            else:
                final[key] = ('g', tuple(ds)); groups.setdefault(tuple(ds), None)
        # group induction values by proportional step vectors
        reps = []
        kat = A('it', uid); 
        def scaled(ds):
            for rep, t in reps:
                # ds == c * rep ?
                c = None
                for x, y in zip(ds, rep):
                    xs, ys = x.sconst, y.sconst
                    if y == ZERO:
                        if x != ZERO: break
                        continue
                    if xs is not None and ys is not None and xs % ys == 0: q = xs // ys
                    elif x == y: q = 1
                    elif x == -y: q = -1
                    else: break
                    if c is None: c = q
                    elif c != q: break
                else:
                    if c is not None: return t.scale(c)
            if all(d == ds[0] for d in ds): 
                t = kat * ds[0]
                return t
            t = A('ind', uid, len(reps)); reps.append((ds, t)); return t
        res = {}
        for key, m, v0 in items:
            fz = final[key]
            if isinstance(fz, Lin): res[key] = fz
            elif fz is None:
                w = 64
                if key[0] == 'v': w = next(i.get('w', 64) for i in phis if i['i'] == key[1])
                else: w = min(64, 8 * key[1][1])
                h = A('hv', 'loop', uid, repr(key)[:200], w); res[key] = h
                if roots(v0) and m.single() in PTR: PTR.add(h.single())
            elif fz[0] == 'sh': res[key] = lshr(v0, kat.scale(fz[1]), 64)
            else: res[key] = v0 + scaled(fz[1])
            w = 64
            if key[0] == 'v': w = next(i.get('w', 64) for i in phis if i['i'] == key[1])
            if w < 64 and isinstance(fz, tuple): res[key] = trunc(res[key], w)
        g = st.copy(); g.bi = H; g.ii = 0; g.loops = st.loops + ((H, uid),)
        for i in phis: g.env[i['i']] = res[('v', i['i'])]
        for r in hroots: g.mem.append(('havoc', r, uid * 1000003 % (1 << 40)))
        if wild: g.mem.append(('havoc', None, uid * 1000003 % (1 << 40), frozenset(self.esc(st))))
        for c in cells: g.mem.append(('st', c[0], c[1], res[('m', c)]))
        self.event(g, 'loop', (H, uid, dict(res), init, ends, len(st.mem)), self.f.blocks[H][0])
        work.append(g)

    def varies(self, l, uid):
        return any(depends(a, uid) for a in l.atoms())
    def phi_root(self, r, init, uid):
        t = atom_of(r)
        if t[0] == 'phi' and t[1] == uid and t[2] in init and isinstance(init[t[2]], Lin): return self.root(init[t[2]])
        return None
    def fresh_in(self, r, p, q):
        t = atom_of(r)
        return False
    def local_in(self, r, uid, st): return False
    def esc(self, st):
        return st.info.get('esc', ())

    def step_block(self, st, work, body, out, backedge):
        blk = self.f.blocks[st.bi]; self.blocks_seen.add(st.bi)
        while True:
            i = blk[st.ii]; o = i['o']
            if o == 'phi': st.ii += 1; continue
            if o == 'br':
                if len(i['d']) == 1: self.goto(st, i['d'][0], work, body, out, backedge); return
                c = val_cond(self.val(st, i['a'][0])) if isinstance(self.val(st, i['a'][0]), Lin) else None
                if i['d'][0] == i['d'][1]: self.goto(st, i['d'][0], work, body, out, backedge); return
                if c is None: c = ('eq', A('hv', 'c', next(_fresh), 64), 64, False)
                r = self.decide(st, c)
                if r is not None:
                    c = self.ncond(st, c)
                    if not isinstance(c, bool) and c[0] == 'eq': self.assume_cond(st, c, r)
                    self.goto(st, i['d'][0 if r else 1], work, body, out, backedge); return
                other = st.copy()
                for s, t in ((st, True), (other, False)):
                    for x in self.assume_cond(s, c, t):
                        self.event(x, 'branch', (c, t), i)
                        self.goto(x, i['d'][0 if t else 1], work, body, out, backedge)
                return
            if o == 'switch':
                v = self.norm(st, self.val(st, i['a'][0])); w = i.get('ow', 64)
                if v.const is not None:
                    tgt = i['df']
                    for cv, b in i['cs']:
                        if cv == v.c: tgt = b; break
                    self.goto(st, tgt, work, body, out, backedge); return
                rest = st.copy(); alive = True
                for cv, b in i['cs']:
                    c = cond_cmp('eq', v, lin(cv), w)
                    for x in self.assume_cond(rest.copy(), c, True):
                        self.event(x, 'branch', (c, True), i)
                        self.goto(x, b, work, body, out, backedge)
                    y = self.assume_cond(rest, c, False)
                    if not y: alive = False; break
                    rest = y[0]
                if alive:
                    self.event(rest, 'default', (v, tuple(cv for cv, _ in i['cs'])), i)
                    self.goto(rest, i['df'], work, body, out, backedge)
                return
            if o == 'ret':
                v = self.val(st, i['a'][0]) if i.get('a') else None
                if isinstance(v, Lin): v = self.norm(st, v)
                self.event(st, 'ret', (v,), i); out.append(Path(st, 'ret', v)); return
            if o == 'unreachable': out.append(Path(st, 'abort', None)); return
            if o == 'resume': out.append(Path(st, 'throw', None)); return
            if o in ('call', 'invoke'):
                r = self.call(st, i)
                if r == 'end': out.append(Path(st, 'abort', None)); return
                if r == 'throw':
                    if o == 'invoke' and self.follow_unwind: self.goto(st, i['u'], work, body, out, backedge); return
                    out.append(Path(st, 'throw', None)); return
                if isinstance(r, list):      # forked states, call result already set
                    for x in r:
                        if o == 'invoke': self.goto(x, i['n'], work, body, out, backedge)
                        else: x.ii += 1; work.append(x)
                    return
                if o == 'invoke':
                    if self.follow_unwind and not i.get('nt') and self.may_throw(i):
                        u = st.copy(); self.event(u, 'unwind', (), i)
                        self.goto(u, i['u'], work, body, out, backedge)
                    self.goto(st, i['n'], work, body, out, backedge); return
                st.ii += 1; continue
            if o == 'select':
                c = val_cond(self.val(st, i['a'][0]))
                r = self.decide(st, c)
                if r is None:
                    a, b = self.val(st, i['a'][1]), self.val(st, i['a'][2])
                    if isinstance(a, Lin) and i.get('w') == 1:
                        # boolean select: and / or
                        ca, cb = val_cond(a), val_cond(b)
                        if cb is False: st.env[i['i']] = cond_val(mk_and(c, ca)); st.ii += 1; continue
                        if ca is True: st.env[i['i']] = cond_val(mk_or(c, cb)); st.ii += 1; continue
                    y = st.copy()
                    for s, t in ((st, True), (y, False)):
                        for x in self.assume_cond(s, c, t):
                            x.env[i['i']] = self.val(x, i['a'][1 if t else 2]); x.ii += 1
                            self.event(x, 'branch', (c, t), i)
                            work.append(x)
                    return
                st.env[i['i']] = self.val(st, i['a'][1 if r else 2]); st.ii += 1; continue
            self.simple(st, i, o)
            st.ii += 1

    def may_throw(self, i): return True

    def simple(self, st, i, o):
        env = st.env; d = i['i']
        if o == 'alloca':
            a = A('alloca', self.f.name, d); PTR.add(a.single()); env[d] = a; return
        if o == 'load':
            addr = self.norm(st, self.val(st, i['a'][0])); n = i['s']
            v = self.load(st, addr, n, isptr=(i.get('t') == 'ptr'))
            if i.get('w') == 1: v = cond_val(val_cond(v))
            env[d] = v
            self.event(st, 'load', (addr, n, v), i); return
        if o == 'store':
            v = self.val(st, i['a'][0]); addr = self.norm(st, self.val(st, i['a'][1]))
            if isinstance(v, Lin): v = self.norm(st, v)
            self.event(st, 'store', (addr, i['s'], v), i)
            self.store(st, addr, i['s'], v, i); return
        if o == 'getelementptr':
            v = self.val(st, i['a'][0]) + (i.get('k') or 0)
            for x, k in i.get('v', []):
                xv = self.val(st, x)
                v = v + xv.scale(k)
            env[d] = self.norm(st, v); return
        if o in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            env[d] = self.val(st, i['a'][0]); return
        if o == 'zext':
            env[d] = self.val(st, i['a'][0]); return
        if o == 'trunc':
            v = trunc(self.norm(st, self.val(st, i['a'][0])), i['w'])
            if i['w'] == 1: v = cond_val(val_cond(v))
            env[d] = v; return
        if o == 'sext':
            env[d] = sext(self.val(st, i['a'][0]), i.get('ow', 32), i['w']); return
        if o == 'icmp':
            a, b = self.norm(st, self.val(st, i['a'][0])), self.norm(st, self.val(st, i['a'][1]))
            env[d] = cond_val(cond_cmp(i['p'], a, b, i['ow'])); return
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.norm(st, self.val(st, i['a'][0])), self.norm(st, self.val(st, i['a'][1]))
            w = i['w']
            if w == 1 and o in ('and', 'or', 'xor'):
                ca, cb = val_cond(a), val_cond(b)
                if o == 'and': c = mk_and(ca, cb)
                elif o == 'or': c = mk_or(ca, cb)
                else:
                    if cb is True: c = cond_not(ca)
                    elif ca is True: c = cond_not(cb)
                    elif cb is False: c = ca
                    elif ca is False: c = cb
                    else: c = ('eq', A('xor1', ca, cb), 1, True)
                env[d] = cond_val(c); return
            env[d] = binop(o, w, a, b); return
        if o == 'extractvalue':
            v = self.val(st, i['a'][0])
            for x in i['ix']:
                if isinstance(v, tuple) and v[0] == 'agg' and x < len(v[1]): v = v[1][x]
                elif isinstance(v, Lin): v = A('xv', v, x)
                else: v = A('hv', 'xv', next(_fresh), 64)
            env[d] = v; return
        if o == 'insertvalue':
            v = self.val(st, i['a'][0]); x = self.val(st, i['a'][1])
            if isinstance(v, tuple) and v[0] == 'agg': l = list(v[1])
            else: l = []
            k = i['ix'][0]
            while len(l) <= k: l.append(A('undef',))
            l[k] = x; env[d] = ('agg', l); return
        if o == 'landingpad':
            env[d] = ('agg', [A('exc', next(_fresh)), A('hv', 'sel', next(_fresh), 32)]); return
        if o == 'fcmp': env[d] = A('hv', 'f', next(_fresh), 1); return
        env[d] = A('hv', o, d, i.get('w', 64))

    # ---- calls --------------------------------------------------------------------------------
    def call(self, st, i):
        a = [self.val(st, x) for x in i.get('a', []) if x[0] != 'md']
        a = [self.norm(st, x) if isinstance(x, Lin) else x for x in a]
        f = i.get('f'); d = i['i']
        if f and f.startswith('llvm.'):
            b = i.get('intr') or f
            if b.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental', 'llvm.invariant', 'llvm.stack')): return
            if b.startswith(('llvm.memcpy', 'llvm.memmove')): return self.memcpy(st, a[0], a[1], a[2], i)
            if b.startswith('llvm.memset'):
                self.event(st, 'memset', (a[0], a[2], a[1]), i)
                st.mem.append(('set', a[0], a[2], a[1])); return
            if b.startswith('llvm.expect'): st.env[d] = a[0]; return
            if b in ('llvm.trap',): return 'end'
            if b.startswith(('llvm.umul.with.overflow',)):
                st.env[d] = ('agg', [a[0] * a[1], A('bool', ('umulov', a[0], a[1], False)) if a[0].const is None and not mul_fits(a[0], a[1]) else ZERO]); 
                if a[0].const is not None and a[1].const is not None: st.env[d] = ('agg', [a[0] * a[1], lin(int(a[0].c * a[1].c >= 1 << 64))])
                return
            if b.startswith(('llvm.uadd.with.overflow',)):
                st.env[d] = ('agg', [a[0] + a[1], A('bool', ('uaddov', a[0], a[1], False))]); 
                return
            if b.startswith('llvm.eh.typeid'): st.env[d] = A('tid', f, str(a)); return
            if b.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')): st.env[d] = A('bin', b[5:9], i.get('w', 64), a[0], a[1]); return
            self.event(st, 'call', (f, a), i)
            st.env[d] = A('hv', f, next(_fresh), i.get('w', 64)); return
        if not i.get('nt'): self.event(st, 'maythrow', (f,), i)
        if self.on_call:
            r = self.on_call(self, st, i, f, a)
            if r is not None: return r if r != 'ok' else None
        m = self.models.get(f) or MODELS.get(f)
        if m: return m(self, st, i, a)
        if f == '__cxa_throw':
            self.event(st, 'throw', (a[0], i['a'][1]), i); return 'throw'
        if f in self.static_fns:
            r = A('retp', f); PTR.add(r.single()); st.env[d] = r
            self.event(st, 'static', (f,), i); return
        fn = self.m.fns.get(f) if f else None
        if fn is not None and fn.decl and fn.dname.startswith('std::') or fn is not None and fn.dname.startswith('std::') and f:
            r = self.container(st, i, fn, a)
            if r: return
        if i.get('nr') or (fn is not None and fn.d.get('noreturn')):
            self.event(st, 'noreturn', (f, a), i)
            return 'throw' if f and ('throw' in f or f == '__cxa_rethrow') else 'end'
        self.default_call(st, i, f, a)
    def container(self, st, i, fn, a):
        """special members of standard containers: the whole object is one content token"""
        m = CONTAINER(fn.dname)
        if not m: return False
        size, op, args = m
        if not a or not isinstance(a[0], Lin): return False
        this = a[0]
        if op == 'const': return False
        if op == 'mut':
            self.event(st, 'call', (i['f'], a), i)
            self.store(st, this, size, A('cont', next(_fresh), 64)); PTR.add(st.mem[-1][3].single())
            for k, x in enumerate(a[1:]):
                t = args[k] if k < len(args) else ''
                if not isinstance(x, Lin) or t.endswith(' const&') or not t.endswith('&') or '*' in t or t.split(' ')[0].rstrip('&') in SCALAR: continue
                r = self.root(x)
                if r is not None: self.havoc(st, r)
            if i.get('t') and i.get('t') != 'void':
                st.env[i['i']] = self.ret_atom(i, i['f']); st.ev[-1].a = (i['f'], a, st.env[i['i']])
            return True
        if op == 'copy':
            v = self.load(st, a[1], size); v = copy_of(v)
            self.event(st, 'ccopy', (this, a[1], size, v), i); self.store(st, this, size, v)
        elif op == 'move':
            v = self.load(st, a[1], size)
            self.event(st, 'cmove', (this, a[1], size, v), i)
            self.store(st, this, size, v); self.store(st, a[1], size, ZERO)
        elif op == 'swap':
            v, w = self.load(st, this, size), self.load(st, a[1], size)
            self.event(st, 'cswap', (this, a[1], size), i)
            self.store(st, this, size, w); self.store(st, a[1], size, v)
        elif op == 'default':
            self.event(st, 'cdefault', (this, size), i); self.store(st, this, size, ZERO)
        elif op == 'clear':
            self.event(st, 'cdefault', (this, size), i); self.store(st, this, size, ZERO)
        elif op == 'dtor':
            self.event(st, 'cdtor', (this, size), i)
        else: return False
        if i.get('t') and i.get('t') != 'void': st.env[i['i']] = this
        return True
    def ret_atom(self, i, f):
        t = i.get('t')
        if t == 'ptr': r = A('ret', next(_fresh), 64, f); PTR.add(r.single()); return r
        w = i.get('w', 64)
        r = A('ret', next(_fresh), w, f)
        if w == 1: return cond_val(val_cond(r))
        return r
    def default_call(self, st, i, f, a):
        self.event(st, 'call', (f, a), i)
        fn = self.m.fns.get(f) if f else None
        dt = fn.d.get('ditypes') if fn else None
        for k, x in enumerate(a):
            if isinstance(x, Lin):
                r = self.root(x)
                if r is None or r not in PTR and atom_of(r)[0] not in ('arg', 'alloca', 'new', 'glob', 'retp'): continue
                if f in NOHAVOC: continue
                self.havoc(st, r)
        if i.get('t') and i.get('t') != 'void':
            st.env[i['i']] = self.ret_atom(i, f)
            st.ev[-1].a = (f, a, st.env[i['i']])
    def memcpy(self, st, dst, src, n, i):
        self.event(st, 'memcpy', (dst, src, n), i)
        if n.const is not None and n.c in (1, 2, 4, 8):
            v = self.load(st, src, n.c); st.mem.append(('st', dst, n.c, v)); return
        st.mem.append(('cp', dst, n, src, len(st.mem)))

SCALAR = {'int', 'unsigned', 'long', 'char', 'bool', 'short', 'float', 'double', 'void'}
import re as _re, functools as _ft
CSIZE = {'vector': 24, 'map': 48, 'multimap': 48, 'set': 48, 'multiset': 48, 'deque': 80, 'list': 24, '__cxx11::basic_string': 32, '__cxx11::list': 24}
def _args_of(s):
    """split 'X<...>::m(args) tail' into (prefix up to the parameter list, args, tail)"""
    d = 0
    for k, c in enumerate(s):
        if c == '<': d += 1
        elif c == '>' and s[k-1] != '-': d -= 1
        elif c == '(' and d == 0:
            e = s.rfind(')')
            return s[:k], s[k+1:e], s[e+1:]
    return s, None, ''
@_ft.lru_cache(None)
def CONTAINER(dname):
    pre, args, tail = _args_of(dname)
    if args is None: return None
    m = _re.match(r'std::((?:__cxx11::)?[a-z_]+)<', pre)
    if not m or m.group(1) not in CSIZE: return None
    size = CSIZE[m.group(1)]; name = m.group(1).split('::')[-1]
    if pre.startswith('std::vector<bool'): size = 40
    # the member name follows the matching '>'
    d = 0
    for k, c in enumerate(pre):
        if c == '<': d += 1
        elif c == '>':
            d -= 1
            if d == 0: break
    mem = pre[k+1:].lstrip(':'); mem = mem.split('[')[0]
    own = pre[:k+1]
    al = []; d = 0; cur = ''
    for c in args:
        if c in '<(': d += 1
        elif c in '>)': d -= 1
        if c == ',' and d == 0: al.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): al.append(cur.strip())
    op = 'mut'
    if tail.strip().startswith('const'): op = 'const'
    elif mem == name:
        if args == '': op = 'default'
        elif args == own + ' const&': op = 'copy'
        elif args == own + '&&': op = 'move'
    elif mem == 'operator=':
        if args == own + ' const&': op = 'copy'
        elif args == own + '&&': op = 'move'
    elif mem == 'swap' and args == own + '&': op = 'swap'
    elif mem == '~' + name: op = 'dtor'
    elif mem == 'clear' and args == '': op = 'clear'
    elif mem in ('begin', 'end', 'find', 'operator', 'at', 'lower_bound', 'upper_bound', 'rbegin', 'rend', 'front', 'back', 'data', 'size', 'empty'): op = 'const'
    return size, op, tuple(al)
def copy_of(v):
    if v == ZERO: return ZERO
    return A('copyof', v)

NOHAVOC = {'_ZNSt13runtime_errorC2EPKc', '_ZNSt13runtime_errorC1EPKc', '__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch', 'strlen', 'memcmp', 'strcmp', '_ZSt9terminatev'}

def mk_and(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    if a == b: return a
    return ('and', a, b, False)
def mk_or(a, b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    if a == b: return a
    return ('or', a, b, False)

def nonnull(l):
    """address of an existing object displaced by less than a page: never null"""
    for x in (l, -l):
        if len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1:
            k = x.sconst if not x.t else (x.c - (1 << 64) if x.c >> 63 else x.c)
            t = atom_of(x.t[0][0][0])
            if t[0] in ('alloca', 'glob', 'retp', 'img', 'new') and -4096 < k < 4096: return True
            if t[0] == 'arg' and x.t[0][0][0] in PTR and 0 < k < 4096: return True
    return fresh_differs(l)

def fresh_differs(l):
    """an address inside a block allocated on this path minus a pointer that existed before"""
    for x in (l, -l):
        new = [m[0] for m, k in x.t if len(m) == 1 and k == 1 and atom_of(m[0])[0] == 'new']
        old = [m[0] for m, k in x.t if len(m) == 1 and k == (1 << 64) - 1]
        if len(new) != 1 or len(old) != 1: continue
        t = atom_of(old[0])
        if t[0] == 'ld' and t[1] == 0 and t[3] == 8 and roots(t[2]) and all(atom_of(r)[0] in ('arg', 'retp', 'ld') for r in roots(t[2])): return nonneg(x - Aid(new[0]) + Aid(old[0]))
    return False

def mul_fits(a, b):
    w = 0
    for x in (a, b):
        i = x.single()
        if x.const is not None: w += x.const.bit_length()
        elif i is not None: w += width(i)
        else: return False
    return w <= 64

def nonneg(l):
    """provably non-negative reading: constant and all coefficients non-negative (as signed)"""
    if l.c >> 63: return False
    return all(not (k >> 63) for _, k in l.t)

_rootc = {}
POINTERISH = ('arg', 'alloca', 'new', 'glob', 'retp')
def roots(l):
    key = (l, len(PTR))
    r = _rootc.get(key)
    if r is not None: return r
    c = []
    def add(x):
        for m, k in x.t:
            if k == 1 and len(m) == 1:
                t = atom_of(m[0])
                if t[0] == 'ad': add(t[2])
                elif m[0] in PTR or t[0] in ('alloca', 'new', 'glob', 'retp'): c.append(m[0])
    add(l)
    if not c:
        def add2(x):
            for m, k in x.t:
                if k == 1 and len(m) == 1:
                    t = atom_of(m[0])
                    if t[0] == 'ad': add2(t[2])
                    else: c.append(m[0])
        add2(l)
    c = list(dict.fromkeys(c))
    _rootc[key] = c
    return c

def newborn(l):
    """the address of a local variable minus something that was in memory before the call: never zero"""
    n = 0
    for m, k in l.t:
        if len(m) != 1: return False
        t = atom_of(m[0])
        if t[0] == 'alloca':
            if k not in (1, (1 << 64) - 1): return False
            n += 1
        elif t[0] == 'ld':
            if t[1] != 0 or any(atom_of(a)[0] not in ('arg', 'ld') for a in t[2].atoms()): return False
        elif t[0] != 'arg': return False
    return n == 1 and len(l.t) == 2
_depc = {}
def depends(a, uid):
    """does atom a mention a loop-carried value of loop uid?"""
    k = (a, uid)
    r = _depc.get(k)
    if r is None:
        t = atom_of(a)
        r = False
        # identities grow: whatever an inner loop introduced varies with this one as well
        if t[0] in ('phi', 'it', 'ind') and t[1] >= uid: r = True
        elif t[0] == 'hv' and isinstance(t[2], int) and t[2] >= uid: r = True
        elif t[0] == 'ld' and t[1] == uid * 1000003 % (1 << 40): r = True
        else:
            for x in t[1:]:
                if dep_any(x, uid): r = True; break
        _depc[k] = r
    return r
def dep_any(x, uid):
    if isinstance(x, Lin): return any(depends(a, uid) for a in x.atoms())
    if isinstance(x, tuple): return any(dep_any(y, uid) for y in x)
    return False

def occurs(a, l):
    for x in l.atoms():
        if x == a: return True
        for y in atom_of(x)[1:]:
            if occ_any(a, y): return True
    return False
def occ_any(a, y):
    if isinstance(y, Lin): return occurs(a, y)
    if isinstance(y, tuple): return any(occ_any(a, z) for z in y)
    return False

_subc = {}; _subids = {}
def subst(l, sub):
    if not l.t or not sub: return l
    key = tuple(sorted(sub.items(), key=lambda kv: kv[0]))
    return _subst(l, sub, key)
def _subst(l, sub, key):
    ck = (l, key)
    r = _subc.get(ck)
    if r is not None: return r
    out = Lin(l.c, ()); same = True; parts = []
    for m, k in l.t:
        term = Lin(k, ()); ch = False
        for a in m:
            v = subst_atom(a, sub, key)
            if v is not None: ch = True; term = term * v
            else: term = term * Aid(a)
        if ch: same = False
        parts.append(term)
    if same: _subc[ck] = l; return l
    for t in parts: out = out + t
    _subc[ck] = out
    return out
def subst_atom(a, sub, key):
    if a in sub: return sub[a]
    t = atom_of(a); ch = False; n = []
    for x in t[1:]:
        y = subst_any(x, sub, key)
        if y is not x and y != x: ch = True
        n.append(y)
    if not ch: return None
    k = t[0]
    if k == 'ad': return mk_ad(t[1], n[1])
    if k == 'w': return trunc(n[1], t[1])
    if k == 'bin': return binop(n[0], n[1], n[2], n[3])
    if k == 'bool': return cond_val(n[0])
    if k == 'sext': return sext(n[2], n[0], n[1])
    v = A(k, *n)
    if a in PTR: PTR.add(v.single())
    return v
def subst_any(x, sub, key):
    if isinstance(x, Lin): return _subst(x, sub, key)
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] in ('eq', 'ult', 'slt', 'and', 'or') and isinstance(x[3], bool): return subst_cond(x, sub)
        y = tuple(subst_any(z, sub, key) for z in x)
        return y if y != x else x
    return x
def subst_cond(c, sub):
    if c is True or c is False or not sub: return c
    p, a, b, neg = c
    if p in ('and', 'or'):
        x, y = subst_cond(a, sub), subst_cond(b, sub)
        r = mk_and(x, y) if p == 'and' else mk_or(x, y)
    elif p == 'eq':
        x = subst(a, sub)
        r = c if x == a else cond_cmp('eq', x, ZERO, b)
        if r is c: return c
    elif p in ('ult', 'slt'):
        x, y = subst(a, sub), subst(b, sub)
        if x == a and y == b: return c
        r = cond_cmp(p, x, y)
    else: return c
    return cond_not(r) if neg else r

# ---- models of library calls ---------------------------------------------------------------
MODELS = {}
def model(*names):
    def d(fn):
        for n in names: MODELS[n] = fn
        return fn
    return d

@model('_ZNSo5writeEPKcl')
def m_write(fl, st, i, a):
    fl.event(st, 'write', (a[0], a[1], a[2], len(st.mem)), i)
    st.env[i['i']] = a[0]
@model('_ZNSi4readEPcl')
def m_read(fl, st, i, a):
    k = st.nread; st.nread += 1
    tag = (k, st.loops)
    fl.event(st, 'read', (a[0], a[1], a[2], tag), i)
    st.mem.append(('in', a[1], a[2], tag))
    st.info['lastread'] = tag
    st.env[i['i']] = a[0]
@model('_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv', '_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv')
def m_fail(fl, st, i, a):
    t = st.info.get('lastread'); st.env[i['i']] = cond_val(('eq', A('streamok', t), 1, False))
    fl.event(st, 'streamfail', (t,), i)
@model('_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv', '_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv')
def m_ok(fl, st, i, a):
    t = st.info.get('lastread'); st.env[i['i']] = cond_val(('eq', A('streamok', t), 1, True))
    fl.event(st, 'streamfail', (t,), i)
@model('_ZNKSi6gcountEv')
def m_gcount(fl, st, i, a):
    t = st.info.get('lastread'); st.env[i['i']] = A('gcount', t)
    fl.event(st, 'streamfail', (t,), i)
@model('_Znwm', '_Znam')
def m_new(fl, st, i, a):
    r = A('new', next(_fresh)); PTR.add(r.single())
    if a[0].const is not None and a[0].c >> 62: fl.event(st, 'throw', ('bad_alloc', None), i); return 'throw'
    fl.event(st, 'alloc', (r, a[0], i['f']), i); st.env[i['i']] = r
@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free')
def m_del(fl, st, i, a): fl.event(st, 'free', (a[0], i['f']), i)
@model('malloc', 'calloc')
def m_malloc(fl, st, i, a):
    r = A('new', next(_fresh)); PTR.add(r.single())
    n = a[0] if i['f'] == 'malloc' else a[0] * a[1]
    fl.event(st, 'alloc', (r, n, i['f']), i); st.env[i['i']] = r
    if i['f'] == 'calloc': st.mem.append(('set', r, n, ZERO))
@model('__cxa_allocate_exception')
def m_exc(fl, st, i, a):
    r = A('new', next(_fresh)); PTR.add(r.single()); st.env[i['i']] = r
@model('memcpy', 'memmove')
def m_memcpy(fl, st, i, a):
    st.env[i['i']] = a[0]; return fl.memcpy(st, a[0], a[1], a[2], i)
