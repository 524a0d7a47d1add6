"""R03: the accelerated runner of the multi-regexp scanners skips text only where no transition leaves the state."""
import sys, re
from common import norm, short
import runner, rows, R02
from runner import *
from ctx import Broken
from R02 import args, state, beg, end, ret_run, ret_pos, ret_bool, SC, pos_spec, BM, EM

KINDS = ['Scanner', 'ScannerNoMask', 'NonrelocScanner', 'NonrelocScannerNoMask']
RULES = ['-^Pire::Impl::Scanner<.*::(Next|TakeAction|Final|Dead|Initialize)$']

class MultiRunner(Runner):
    """adds the row header of the current state: mask slots, read as words or as vectors"""
    def hook_state(self, st, v):
        if v[0] == 'S':
            if v[2] != 'cur': self.bad('shortcut', None, 'the header of a state other than the current one is consulted')
            return sym('H')
        return v
    def layout(self): return self.spec['layout']
    def hook_load(self, st, addr, n, ins):
        h = [c for s, c in addr[1] if s == 'H']
        if h:
            if h != [1]: raise Unsupported('row header address')
            rest = ladd(addr, sym('H'), -1); k = sg(rest[2])
            slot, nslots, field = self.layout()
            if n == 8 and not rest[1]:
                if k % slot or not 0 <= k < slot * nslots: self.bad('shortcut', ins, 'something other than a whole mask is read from the row header')
                return sym('hdr:%d' % (k // slot))
            if n == 16:
                for r in (0, 8):
                    o = self.offset(rest, r, st, field)
                    if o is None: raise Unsupported('row header address')
                    if (o + r) % 16: self.bad('shortcut', ins, 'the mask is not read from the aligned part of its slot')
                    q = (o // slot) if o >= 0 else -1
                    if not 0 <= q < nslots or (o + n - 1) // slot != q: self.bad('shortcut', ins, 'the vector read for a mask is not inside that mask')
                self.ok('shortcut', ins)
                return ('V', 'mask', q)
            raise Unsupported('row header read of %d bytes' % n)
        return Runner.hook_load(self, st, addr, n, ins)
    def offset(self, e, r, st, field):
        """value of e when the row table is r mod 16"""
        t = st.mem.get(('h.sc', field))
        if t is None: return None
        u = t[1][1][0][0]
        def ev(x):
            tot = x[2]
            for s, c in x[1]:
                if s == u: v = (1 << 20) + r
                elif s in self.pure:
                    o, a, k = self.pure[s]; a = ev(a)
                    if a is None: return None
                    v = {'and': a & k, 'udiv': a // k if k else 0, 'lshr': a >> k}.get(o)
                    if v is None: return None
                else: return None
                tot = (tot + c * v) & W
            return tot
        v = ev(e)
        return None if v is None else sg(v)
    def opaque(self, o, x, c):
        v = Runner.opaque(self, o, x, c)
        if v[0] == 'L' and v[1]: self.pure[v[1][0][0]] = (o, x, c)
        return v
    @property
    def pure(self):
        if not hasattr(self, '_pure'): self._pure = {}
        return self._pure
    # ---- facts about the header
    def hook_cmp(self, st, p, x, y, ins):
        if p not in ('eq', 'ne') or x[0] != 'L' or y[0] != 'L': return None
        nm = lambda v: v[1][0][0] if len(v[1]) == 1 and v[1][0][1] == 1 and v[2] == 0 else ''
        a, b = nm(x), nm(y)
        if not a.startswith('hdr:'): a, b, x, y = b, a, y, x
        if not a.startswith('hdr:'): return None
        if b.startswith('hdr:'): key = ('=',) + tuple(sorted((a, b)))
        elif const(y) is not None: key = (a, const(y))
        else: return None
        sc = next(iter(st.g)); hf = st.g[sc]['hf']
        known = True if (key, True) in hf else False if (key, False) in hf else None
        if known is None and len(key) == 2 and any(t and k[0] == a and k != key for k, t in hf): known = False
        if known is not None: return [(st, known == (p == 'eq'))]
        t = st.copy()
        t.g[sc]['hf'] = hf | {(key, True)}; st.g[sc]['hf'] = hf | {(key, False)}
        self.skipped(t.g[sc])
        return [(t, p == 'eq'), (st, p != 'eq')]
    def noexit(self, g): return any((('hdr:0', k), True) in g['hf'] for k in self.spec['noexit'])
    def complete(self, g): return g['cur'] == self.END or self.noexit(g)
    def here(self, g): return self.END if self.noexit(g) else g['cur']
    def skipped(self, g):
        p = self.spec.get('pos')
        if not p: return
        if g['fin'] is True and p == 'lf': g['lf'] = self.here(g)
        if g['fin'] is None and g['dead'] is not True and p == 'ff' and g['ff'] is None: g['ff'] = '?'
    def call_next(self, st, sc, addr, ch, ins):
        """in a state without exits any later byte may be fed: the state stays what it is"""
        g = st.g.get(sc)
        if g is None or not self.noexit(g): return Runner.call_next(self, st, sc, addr, ch, ins)
        b = to_bytes(ch, 1); keep = g['hf'], g['fin']
        if b and b[0][0] == 'M':
            iv = self.interval(st, ladd(b[0][1], g['cur'], -1))
            if iv and iv[0] >= 0: g['cur'] = b[0][1]
        r = Runner.call_next(self, st, sc, addr, ch, ins)
        g['hf'], g['fin'] = keep
        return r
    # ---- vectors
    def hook_icmp(self, st, ins, x, y):
        if ins['p'] in ('eq', 'ne') and {x[0], y[0]} == {'V', 'B'}:
            if x[0] == 'B': x, y = y, x
            b = y[1:]
            if len(b) == 16 and all(q[0] == 'M' and q[1] == lc(b[0][1], i) for i, q in enumerate(b)) and ins['p'] == 'eq':
                return ('Q', b[0], (x[2],))
            return TOP
        return None
    def hook_binop(self, st, o, x, y, ins):
        if x[0] == 'Q' and y[0] == 'Q':
            if o == 'or' and x[1] == y[1]: return ('Q', x[1], tuple(sorted(set(x[2]) | set(y[2]))))
            return TOP
        if 'Q' in (x[0], y[0]): return TOP
        return None
    def hook_call(self, st, f, base, a, ins):
        if 'pmovmskb' in f: return [(st, a[0] if a[0][0] == 'Q' else TOP)]
        return None
    def cmp(self, st, p, x, y, ins):
        if x[0] == 'Q' and const(y) == 0 and p in ('eq', 'ne'):
            t = st.copy(); self.nomatch(t, x, ins)
            return [(t, p == 'eq'), (st, p != 'eq')]
        return Runner.cmp(self, st, p, x, y, ins)
    def nomatch(self, st, q, ins):
        """no byte of the word equals any byte of these masks: it keeps the scanner in its state"""
        sc = next(iter(st.g)); g = st.g[sc]
        if g['tag'] != 'cur': return
        n = self.layout()[1]; slots = set(q[2])
        for key, t in g['hf']:
            if key[0] == 'nm' and key[1] == q[1][1]: slots |= set(key[2])
        g['hf'] = g['hf'] | {(('nm', q[1][1], tuple(sorted(slots))), True)}
        for key, t in g['hf']:
            if key[0] == '=' and t: slots |= {int(z[4:]) for z in key[1:]} if {int(z[4:]) for z in key[1:]} & slots else set()
        if slots != set(range(n)): return
        known = {k[1] for k, t in g['hf'] if t and len(k) == 2 and k[0] == 'hdr:0'}
        if not all((('hdr:0', z), False) in g['hf'] or known - {z} for z in self.spec['noshort']): return
        if q[1][1] != g['cur']: return
        iv = self.interval(st, self.remaining(g['cur']))
        if iv is None or iv[0] < 16: return
        g['cur'] = lc(g['cur'], 16); g['hf'] = frozenset(x for x in g['hf'] if x[0][0] != 'nm'); self.skipped(g)
        self.nskip = getattr(self, 'nskip', 0) + 1
        self.ok('skip', ins)

def layout(m, kind):
    """(bytes per mask slot, number of slots, offset of the row table pointer in the scanner)"""
    f = m.fns['e_%s_stidx' % kind]
    geps = {i['i']: i for _, i in f.instrs() if i['o'] == 'getelementptr'}
    loads = {i['i']: i for _, i in f.instrs() if i['o'] == 'load'}
    field = None; casts = {i['i']: i['a'][0] for _, i in f.instrs() if i['o'] in ('ptrtoint', 'inttoptr', 'bitcast')}
    def src(o):
        while o[0] == 'i' and o[1] in casts: o = casts[o[1]]
        return o
    for _, i in f.instrs():
        if i['o'] == 'sub':
            o = src(i['a'][1])
            if o[0] == 'i' and o[1] in loads:
                a = src(loads[o[1]]['a'][0])
                if a[0] == 'i' and a[1] in geps and src(geps[a[1]]['a'][0]) == ['p', 0]: field = geps[a[1]]['k']
    if field is None: raise Broken('StateIndex of %s does not subtract a field of the scanner' % kind)
    return field

def dims(m, kind):
    """layout of the rows of a scanner with masks, read off its own accessors"""
    def f32(e):
        f = m.fns['e_%s_%s' % (kind, e)]; off = {i['i']: i.get('k', 0) for _, i in f.instrs() if i['o'] == 'getelementptr' and i['a'][0] == ['p', 0] and not i.get('v')}
        l = [i for _, i in f.instrs() if i['o'] == 'load']
        if len(l) != 1: raise Broken('%s of %s is not a field' % (e, kind))
        o = l[0]['a'][0]
        return (0 if o == ['p', 0] else off[o[1]]), l[0]['s']
    nxt = m.fns['e_%s_next' % kind]; ins = {i['i']: i for _, i in nxt.instrs()}
    letters = None; tsize = None
    for _, i in nxt.instrs():
        if i['o'] == 'load' and i['s'] == 2:
            g = ins.get(i['a'][0][1]); l = ins.get(g['a'][0][1]) if g and g['a'][0][0] == 'i' else None
            if l and l['o'] == 'load':
                q = ins.get(l['a'][0][1]); letters = q.get('k') if q and q['o'] == 'getelementptr' and q['a'][0] == ['p', 0] else letters
    reads = [i for _, i in nxt.instrs() if i['o'] == 'load' and i['s'] in (4, 8) and ins.get(i['a'][0][1], {}).get('v')]
    if reads: tsize = reads[-1]['s']
    if letters is None or tsize is None: raise Broken('the letter table of %s was not recognised' % kind)
    return dict(letters=letters, tsize=tsize, row=layout(m, kind), nstates=f32('nstates')[0], nletters=f32('nletters')[0], reloc=any(i['o'] == 'sext' for _, i in nxt.instrs()) or tsize == 4)

def headers(m, kind):
    """(bytes per mask slot, number of slots, bytes of the whole header)"""
    rl = 'Pire::Impl::%selocatable' % ('Nonr' if kind.startswith('Nonreloc') else 'R')
    for c in m.classes:
        if c['name'].startswith('Pire::Impl::ExitMasks<') and 'ExtendedRowHeader<' in c['name'] and rl in c['name'] and 'ExitMasks' in c['name'].split('<', 2)[-1]:
            arr = [x for x in c.get('members', []) if 'size_t' in str(x[1]) or 'unsigned long' in str(x[1])]
            return c
    return None

def specs(m, masks):
    out = {}
    for k in KINDS:
        field = layout(m, k); slot, n, ne, ns = masks.get(k, (32, 0, (), ()))
        com = dict(layout=(slot, n, field), noexit=ne, noshort=ns)
        out['e_%s_run' % k] = dict(com, setup=args(SC, state(SC), beg, end), ret=ret_run([(SC, 'h.st', 0)]))
        out['e_%s_lpref' % k] = dict(com, **pos_spec('lf', BM, EM, 1))
        out['e_%s_spref' % k] = dict(com, **pos_spec('ff', BM, EM, 1))
    return out
MultiRunner.layout = lambda self: self.spec['layout']
RX = '^e_(%s)_(run|lpref|spref|stidx)$' % '|'.join(KINDS)
MASKS0 = {'Scanner': (32, 2, (2,), (1,)), 'NonrelocScanner': (32, 2, (2,), (1,))}
WRITERS = '^_ZN4Pire4Impl(7Scanner|15ScannerGlueTask).*(11FinishBuild|7Success)Ev$|^e_(Scanner|NonrelocScanner)_(stidx|next|nstates|nletters)$'

def rowclass(m, kind):
    sc = m.fns['e_%s_stidx' % kind].d['ditypes'][1][0].replace('const ', '').rstrip('*& ')
    for c in m.classes:
        if c.endswith('<%s >' % sc) and '::' in c.split('<' + sc)[0]:
            d = m.classes[c]; ns = [x['v'] for x in d['statics'] if 'ount' in x['n']]
            arr = [x for x in d['members'] if x['t'].endswith('[]')]
            if arr and ns: return sc, d['size'], arr[0]['s'] // ns[0], ns[0]
    return sc, None, None, None

def writers(ctx, m):
    """what the header of a row guarantees, from the code that fills it in"""
    masks = {}; rows_ = states = 0
    for kind in ('Scanner', 'NonrelocScanner'):
        sc, size, slot, nslots = rowclass(m, kind)
        if size is None: raise Broken('the row header of %s has no masks' % kind)
        d = dims(m, kind); d.update(slot=slot, nslots=nslots, hs=size // d['tsize'])
        good = set(); other = set(); n = 0
        for name, f in sorted(m.fns.items()):
            if f.decl or not f.name.startswith('_ZN4Pire'): continue
            if not (f.qname.startswith(sc + '::') or '<%s >::' % sc in f.qname): continue
            n += 1
            what = '%s of %s' % (short(f.qname).rsplit('::', 1)[-1], kind)
            r = rows.Rows(m, f, d, None)
            try: r.run()
            except Unsupported as e:
                if not r.viol: raise Broken('%s: %s' % (what, e))
            for v in r.viol: ctx.bad('header-' + v.rule, f.loc(v.ins), '%s: %s' % (what, v.what))
            for (rule, _), i in r.checked.items(): ctx.ok('header-' + rule, f.loc(i))
            if not ctx.decide('header-coverage', bool(r.target), f.loc(), '%s: the row headers are filled in for every state' % what): continue
            rows_ += 1; states += len(r.finals)
            for h, k, z in r.finals:
                if k == 'ret': ctx.decide('header-coverage', r.target <= z, f.loc(), '%s: no return without having filled in the row headers' % what)
                elif h in r.target and k == 'left': ctx.bad('header-coverage', f.loc(), '%s: the loop over the states can be left early' % what)
                elif h in r.target:
                    if k != 'row': ctx.bad('header-coverage', f.loc(), '%s: a state may be left without a row header' % what); continue
                    ph = [i for i, st in z['steps'].items() if st == lc(sym('W%d.%d' % (h, i)), 1) and r.index[h][i] == {L(0)} and (h, 'W%d.%d' % (h, i)) in getattr(r, 'bounds', ()) and any('W%d.%d' % (h, i) in t for t, _ in z['row'])]
                    ctx.decide('header-coverage', bool(ph), f.loc(), '%s: the loop visits every state of the table' % what)
                    if z['const'] is not None:
                        (good if z['done'] and not z['exits'] and len(z['bytes']) == 256 else other).add(z['const'])
                        ctx.ok('header-outcome', '%s: marker %d' % (what, z['const']))
                    elif z['fill']:
                        ctx.decide('header-outcome', z['safe'] and len(z['bytes']) == 256, f.loc(), '%s: %s' % (what, 'every byte that leaves the state is recorded in its masks' if z['safe'] and len(z['bytes']) == 256 else
                            'a byte that leaves the state may be missing from its masks although the state is marked as having shortcuts'))
                    else: ctx.bad('header-outcome', f.loc(), '%s: the masks of a state may end up neither a marker nor bytes filling the whole mask' % what)
        ctx.need(n >= 2, 'only %d functions fill in the row headers of %s' % (n, kind))
        for k in good | other: ctx.decide('header-marker', k % 0x0101010101010101 != 0 or k // 0x0101010101010101 > 255, kind, 'marker %d cannot be taken for a byte mask' % k)
        masks[kind] = (slot, nslots, tuple(sorted(good - other)), tuple(sorted(other)))
    return masks, rows_, states

QUICK = [0, 1, 7, 8, 15]
def run(ctx):
    mw = norm(WRITERS)
    masks, nw, ns = writers(ctx, mw)
    m = norm(RX, RULES); sp = specs(m, masks)
    what = {'e_%s_%s' % (k, e): '%s of %s' % (w, k) for k in KINDS for e, w in (('run', 'Run'), ('lpref', 'LongestPrefix'), ('spref', 'ShortestPrefix'))}
    full = {n: s for n, s in sp.items() if n.endswith('_run')} if ctx.tier == 'quick' else sp
    res = list(R02.sweep(m, MultiRunner, full))
    if ctx.tier == 'quick': res += list(R02.sweep(m, MultiRunner, {n: s for n, s in sp.items() if n not in full}, aligns=QUICK))
    per, blocks = R02.report(ctx, m, res, sp, what)
    for n in sp: ctx.need(n in per, 'runner %s not analysed' % n)
    ctx.atleast('skip', 2)
    ctx.cov.update(entry_points=len(per), abstract_runs=sum(per.values()), header_writers=nw, abstract_rows=ns, markers={k: {'no exit': v[2], 'no shortcut': v[3]} for k, v in masks.items()},
                   alignments='all 256 pairs modulo 16 for Run; %s for the prefix searches' % ('all 256' if ctx.tier != 'quick' else 'the pairs of %s' % QUICK))
    ctx.explanation = 'abstract interpretation of the code that fills in row headers (which bytes leave a state) and of the accelerated runners that consult them; every stretch of text not fed to the scanner needs a header fact that makes it a no-op'
    ctx.assumptions += ['a letter class owns 0-3 or 256 bytes in the header analysis', 'x86-64 little-endian configuration with 8- and 16-byte words', 'tables outside the process (Load, Mmap) carry headers written by the same library']
if __name__ == '__main__':
    import time
    t = time.time(); m = norm(RX, RULES); seen = {}; sp = specs(m, MASKS0)
    al = [int(x) for x in sys.argv[2].split(',')] if len(sys.argv) > 2 else None
    for case, err, viol, chk, nb, nr, bl in R02.sweep(m, MultiRunner, sp, names=sys.argv[1].split(',') if len(sys.argv) > 1 else None, aligns=al):
        if err: seen[(case[0], 'ERR', err)] = case
        for v in viol: seen[(case[0],) + v] = case
    for k, c in seen.items(): print(c, k)
    print('%.1f s' % (time.time() - t))
