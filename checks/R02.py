"""R02: the runners feed every byte of the text, in order, exactly once, and report the right positions."""
import sys
from common import norm
import runner, flow
from runner import *
from ctx import Broken

SC, SC2 = sym('h.sc'), sym('h.sc2')
def args(*names):
    def f(run, st):
        for i, n in enumerate(names): st.env[('p', i)] = n(run, st) if callable(n) else n
    return f
beg = lambda r, s: r.BEG
end = lambda r, s: r.END
def state(sc, at='h.st', off=0):
    def f(r, st):
        st.mem[(at, off)] = (8, ('S', sc, 'cur')); st.g[sc] = r.newghost(True)
        return sym(at)
    return f
def cell(r, st, sc, at='h.st', off=0): return st.mem.get((at, off), (0, None))[1] == ('S', sc, 'cur')
def ret_run(cells):
    def f(r, st, v, ins):
        for sc, at, off in cells:
            g = st.g[sc]
            if not r.complete(g): r.bad('end', ins, 'the run may return before the whole text has been fed')
            if not cell(r, st, sc, at, off): r.bad('result', ins, 'the state handed back is not the one reached at the end of the text')
        r.ok('result', ins); r.ok('end', ins)
    return f
def ret_pos(r, st, v, ins):
    g = st.g.get(SC)
    if g is None or g['tag'] is None: r.bad('result', ins, 'the scanner was never initialised')
    if g['tag'] != 'cur': r.bad('action', ins, 'the last action was not performed')
    p = r.spec['pos']
    if not (p == 'ff' and isinstance(g['ff'], tuple)):
        if not r.complete(g) and g['dead'] is not True: r.bad('end', ins, 'the scan stops before the end of the text although a match is still possible')
        if r.wantlast and not g['em'] and g['dead'] is not True: r.bad('mark', ins, 'the requested closing mark is not fed')
        if r.wantfirst and not g['bm']: r.bad('mark', ins, 'the requested opening mark is not fed')
    r.missed(g)
    x = g[p] if g[p] is not None else L(0)
    if x == '?': r.bad('result', ins, 'a position is passed without asking whether it is accepting')
    if v != x: r.bad('result', ins, 'the position returned is not the %s accepting one (returned %s, expected %s)' % ('last' if p == 'lf' else 'first', show(v), show(x)))
    r.ok('result', ins); r.ok('end', ins)
def show(v):
    if v[0] == 'L': return '+'.join([s for s, c in v[1]] + [str(sg(v[2]))])
    return str(v)[:60]
def ret_bool(neg):
    def f(r, st, v, ins):
        g = st.g[SC]; c = const(v)
        if c is None: c = 1 if r.nonnull(v) else None
        if g['fin'] is None or c is None or (bool(c) != (g['fin'] != neg)): r.bad('result', ins, 'the verdict is not Final() of the state reached')
        if r.spec.get('whole') and not r.complete(g): r.bad('end', ins, 'the verdict is given before the whole text has been fed')
        r.ok('result', ins)
    return f
def ret_one(r, st, v, ins):
    if not st.g[SC]['n'] or not cell(r, st, SC, 'h', 8): r.bad('result', ins, 'the step was not made, or its result not kept')
    r.ok('result', ins)
def helper(r, st):
    st.mem[('h', 0)] = (8, SC)
    state(SC, 'h', 8)(r, st)
    return sym('h')
def ret_made(r, st, v, ins):
    if st.mem.get(('hd', 0), (0, None))[1] != SC or not cell(r, st, SC, 'hd', 8): r.bad('result', ins, 'the helper does not hold the scanner and its state')
    r.ok('result', ins)
def ret_same(r, st, v, ins):
    if st.mem.get(('hd', 0), (0, None))[1] != SC or not cell(r, st, SC, 'hd', 8) or st.g[SC]['n']: r.bad('result', ins, 'the helper does not hold the scanner and the state given')
    r.ok('result', ins)
def strcall(r, st, base, a):
    if base in ('c_str', 'data', 'begin', 'cbegin') and a and a[0] == sym('h.str'): return r.BEG
    if base in ('end', 'cend') and a and a[0] == sym('h.str'): return r.END
    if base in ('size', 'length') and a and a[0] == sym('h.str'): return ladd(r.END, r.BEG, -1)
    return None
size = lambda r, s: ladd(r.END, r.BEG, -1)
BM, EM = (258,), (259,)

def pos_spec(p, first, last, dir):
    return dict(dir=dir, pos=p, first=first, last=last, ret=ret_pos, setup=args(SC, beg, end, L(0), L(0)), marks=True)
SPECS = {
 'e_Probe_run': dict(setup=args(SC, state(SC), beg, end), ret=ret_run([(SC, 'h.st', 0)])),
 'e_Probe_run2': dict(setup=args(SC, SC2, state(SC, 'h.st'), state(SC2, 'h.st2'), beg, end), ret=ret_run([(SC, 'h.st', 0), (SC2, 'h.st2', 0)])),
 'e_Probe_lpref': pos_spec('lf', BM, EM, 1), 'e_Probe_spref': pos_spec('ff', BM, EM, 1),
 'e_Probe_lsuf': pos_spec('lf', EM, BM, -1), 'e_Probe_ssuf': pos_spec('ff', EM, BM, -1),
 'e_Probe_matches': dict(setup=args(SC, beg, end), ret=ret_bool(False), whole=True),
 'e_Probe_rh_run': dict(setup=args(helper, beg, end), ret=ret_run([(SC, 'h', 8)])),
 'e_Probe_rh_runn': dict(setup=args(helper, beg, size), ret=ret_run([(SC, 'h', 8)])),
 'e_Probe_rh_runs': dict(setup=args(helper, sym('h.str')), ret=ret_run([(SC, 'h', 8)]), call=strcall),
 'e_Probe_rh_begin': dict(setup=args(helper), single=L(258), ret=ret_one, flat=1),
 'e_Probe_rh_end': dict(setup=args(helper), single=L(259), ret=ret_one, flat=1),
 'e_Probe_rh_step': dict(setup=args(helper, sym('ch')), single=sym('ch'), ret=ret_one, flat=1),
 'e_Probe_rh_bool': dict(setup=args(helper), ret=ret_bool(False), flat=1),
 'e_Probe_rh_not': dict(setup=args(helper), ret=ret_bool(True), flat=1),
 'e_Probe_runner': dict(setup=args(sym('hd'), SC), ret=ret_made, flat=1),
 'e_Probe_runner2': dict(setup=args(sym('hd'), SC, state(SC)), ret=ret_same, flat=1),
 'e_Probe_step': dict(setup=args(SC, state(SC), sym('ch')), single=sym('ch'), ret=lambda r, st, v, ins: ret_step(r, st, ins), flat=1),
}
def ret_step(r, st, ins):
    if not st.g[SC]['n'] or not cell(r, st, SC): r.bad('result', ins, 'the step was not made')
    r.ok('result', ins)
def variants(spec):
    if not spec.get('marks'): return [(False, False)]
    return [(False, False), (True, False), (False, True), (True, True)]

def cases(names=None, specs=SPECS, aligns=None):
    for n, sp in specs.items():
        if names and n not in names: continue
        al = (aligns or range(16)) if not sp.get('flat') else [0]
        for wf, wl in variants(sp):
            for a in al:
                for b in al: yield n, wf, wl, a, b
def runner_of(m, case, cls=Runner, specs=SPECS):
    n, wf, wl, a, b = case; sp = specs[n]
    r = cls(m, m.fns[n], sp, a, b)
    def setup(rr, st):
        sp['setup'](rr, st); rr.wantfirst, rr.wantlast = wf, wl
        if sp.get('marks'): st.env[('p', 3)] = L(int(wf)); st.env[('p', 4)] = L(int(wl))
    r.spec = dict(sp, setup=setup)
    return r
_job = {}
def one(chunk):
    out = []
    for case in chunk:
        r = runner_of(_job['m'], case, _job['cls'], _job['specs']); err = None
        try: r.run()
        except Unsupported as e: err = str(e)
        out.append((case, err, [(v.rule, r.f.loc(v.ins), v.what) for v in r.viol], {(rule, r.f.loc(i)) for (rule, _), i in r.checked.items()}, r.nbytes, r.rets, sorted(r.blocks)))
    return out
def sweep(m, cls=Runner, specs=SPECS, names=None, aligns=None):
    import multiprocessing as mp
    _job.update(m=m, cls=cls, specs=specs)
    cs = list(cases(names, specs, aligns)); cs.sort(key=lambda c: (c[3] * 7 + c[4] * 3) % 16)
    chunks = [cs[i::64] for i in range(64)]
    with mp.get_context('fork').Pool(8) as p:
        for out in p.imap_unordered(one, [c for c in chunks if c]): yield from out
def report(ctx, m, results, specs, what):
    per = {}; bad = {}; blocks = {}; rets = {}; errs = []
    for case, err, viol, chk, nb, nr, bl in results:
        n = case[0]
        if err: errs.append('%s (alignment %d/%d): %s' % (n, case[3], case[4], err)); continue
        per[n] = per.get(n, 0) + 1; rets[n] = rets.get(n, 0) + nr
        blocks.setdefault(n, set()).update(bl)
        for rule, loc in chk: bad.setdefault((n, rule, loc), None)
        for rule, loc, w in viol: bad[(n, rule, loc)] = (w, case)
    for (n, rule, loc), v in sorted(bad.items()):
        if v: ctx.bad(rule, loc, '%s: %s (text aligned %d..%d mod 16)' % (what.get(n, n), v[0], v[1][3], v[1][4]))
        else: ctx.ok(rule, '%s in %s' % (loc, what.get(n, n)))
    if errs and not ctx.viol: raise Broken(errs[0])
    for n in per:
        ctx.need(rets[n] or ctx.viol, '%s never returns' % n)
    return per, blocks

WHAT = {'e_Probe_run': 'Run', 'e_Probe_run2': 'Run of two scanners', 'e_Probe_lpref': 'LongestPrefix', 'e_Probe_spref': 'ShortestPrefix', 'e_Probe_lsuf': 'LongestSuffix',
 'e_Probe_ssuf': 'ShortestSuffix', 'e_Probe_matches': 'Matches', 'e_Probe_step': 'Step'}
for k, n in (('h', 'RunHelper'), ('unner', 'Runner')):
    for e in SPECS:
        if e.startswith('e_Probe_r' + k): WHAT.setdefault(e, n + ' ' + e[8:])
def run(ctx):
    m = norm('^e_Probe_')
    per, blocks = report(ctx, m, sweep(m), SPECS, WHAT)
    for n in SPECS: ctx.need(n in per, 'runner %s not analysed' % n)
    ctx.cov.update(entry_points=len(per), abstract_runs=sum(per.values()), alignments='all 256 pairs of start/end alignment modulo 16', blocks_visited=sum(len(b) for b in blocks.values()))
    ctx.explanation = 'abstract interpretation of every generic runner over an uninterpreted scanner: a ghost automaton records which byte of the text, mark, action and predicate the scanner has seen; each call must match it'
    ctx.assumptions += ['scanner operations do not touch the text or the runner\'s own variables', 'x86-64 little-endian configuration with 8- and 16-byte words']
if __name__ == '__main__':
    import time
    t = time.time(); m = norm('^e_Probe_'); seen = {}
    for case, err, viol, chk, nb, nr, bl in sweep(m, names=sys.argv[1:] or None):
        if err: seen[(case[0], 'ERR', err)] = case
        for v in viol: seen[(case[0],) + v] = case
    for k, c in seen.items(): print(c, k)
    print('%.1f s' % (time.time() - t))
