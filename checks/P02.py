"""P02: the operators, groups and counts of an expression combine automata as the syntax says."""
import re, os, itertools
from multiprocessing import Pool
from common import norm, raw
import build, bits, grammar
from bits import St
from grammar import World, Reading, Refused, Parser, Trouble, text, INF
from ctx import Broken
from U01 import gload
RULES = ['-^Pire::Any::', '-AppendRange', '-^Pire::Lexer::', '-yylex', '-^Pire::Term::', '-^Pire::TSet<', '-^Pire::Error::', '-^std::set<', '-^std::(vector|map)<']
def kinds():
    h = open(os.path.join(build.module(), 'gen', 're_parser.h')).read()
    k = {n: int(v) for n, v in re.findall(r'(YRE_\w+)\s*=\s*(\d+)', h)}
    d = dict(re.findall(r'\b(BeginMark|EndMark)\s*=\s*(\d+)', open(build.REPO + '/pire/defs.h').read()))
    if len(d) != 2 or not {'YRE_LETTERS', 'YRE_COUNT', 'YRE_DOT', 'YRE_AND', 'YRE_NOT'} <= set(k): raise Broken('token or mark numbers not found')
    t = {'c': k['YRE_LETTERS'], 'n': k['YRE_LETTERS'], '.': k['YRE_DOT'], '#': k['YRE_COUNT'], '&': k['YRE_AND'], '~': k['YRE_NOT']}
    for c in '()|^$': t[c] = ord(c)
    return t, {int(d['BeginMark']): '^', int(d['EndMark']): '$'}
C = lambda a, b: ('#', a, b)
def sequences(deep):
    """[(alphabet, length bound, tokens)]"""
    out = []
    al = [('c', 'a'), ('c', 'b'), ('|',), ('(',), (')',), C(0, INF), ('&',), ('~',)]
    for n in range(0, (6 if deep else 5)):
        for s in itertools.product(al, repeat=n):
            if n > 3 and ('c', 'b') == s[0]: continue              # the same up to the names of the letters
            out.append(('ab', 3, s))
    x = ('c', 'a'); y = ('c', 'b'); o, c, b = ('(',), (')',), ('|',)
    for lo in range(5):
        for hi in list(range(lo, 6)) + [INF]:
            out.append(('a', 12, (x, C(lo, hi)))); out.append(('a', 12, (o, x, x, c, C(lo, hi)))); out.append(('a', 12, (o, x, b, c, C(lo, hi), x))); out.append(('ab', 6, (x, C(lo, hi), y)))
            out.append(('ab', 5, (o, x, b, y, x, c, C(lo, hi)))); out.append(('a', 8, (o, x, C(lo, hi), c, C(hi if hi != INF else 2, INF)))); out.append(('a', 12, (o, c, C(lo, hi), x)))
    one = [('.',), ('^',), ('$',), ('n', 'a'), ('n', 'ab'), ('c', 'ab'), ('c', 'a')]
    for t in one:
        for u in one:
            out.append(('ab^$', 3, (t, u))); out.append(('ab^$', 3, (t, b, u))); out.append(('ab^$', 3, (t, ('&',), u))); out.append(('ab^$', 3, (x, o, t, b, x, u, c, C(1, INF))))
        out.append(('ab^$', 3, (('~',), t))); out.append(('ab^$', 3, (t, C(0, 1), y))); out.append(('ab^$', 4, (t, C(2, 3), y))); out.append(('ab^$', 3, (o, t, c, t)))
    out = list(dict.fromkeys(out))
    return [j + (False,) for j in out] + [j + (True,) for j in out if len(j[2]) < 4 and j[0] == 'ab']
def setup():
    m = norm('^_ZN4Pire4Impl9yre_parse', RULES)
    f = next((f for n, f in m.fns.items() if re.match('_ZN4Pire4Impl9yre_parse', n) and not f.decl), None)
    if f is None: raise Broken('the parser was not found')
    return m, f
def one(job):
    letters, n, toks, lexerror = job
    m, f = _c
    W = World(letters, n); R = Reading(W, toks)
    try: want = R.whole()
    except Refused: want = None
    got = []
    def ret(run, s, v, i):
        l = run.value(s, ('P', 'RET', 0)); got.append((bits.ival(v), l and l[0], l and l[1]))
    r = Parser(m, f, [('P', 'LEX', 0)], load=None, call=None, ret=ret, limit=20000)
    g = gload(m)
    r.setup(W, toks, _k[0], _k[1], lexerror); r.hload = lambda run, st, p, size, w: r.load(st, p, size, w) or g(run, st, p, size, w); r.hcall = r.hook
    st = St(mem={}); r.setany(st, ('P', 'RET', 0), None)
    where = f.loc(); what = []
    try: r.run(st)
    except Trouble as e: return toks, [('meaning', str(e))]
    except bits.Unsupported as e: return toks, [('?', str(e))]
    if r.need: return toks, [('?', 'undecided')]
    if len(got) > 1 or not got and not r.threw: return toks, [('?', '%d ways out' % len(got))]
    if lexerror:
        if not r.threw and not (got and got[0][0]): what.append(('refused', 'is not refused with an error although its characters cannot be read to the end'))
    elif want is None:
        if got and got[0][0] == 0: what.append(('refused', 'is accepted although it is malformed'))
    elif not got or got[0][0] != 0: what.append(('accepted', 'is refused'))
    else:
        _, k, l = got[0]
        if k != 'fsm' or l is None: what.append(('meaning', 'does not end as an automaton'))
        elif l[1] != want:
            e = sorted(l[1] - want, key=lambda x: (len(x), x)); s = sorted(want - l[1], key=lambda x: (len(x), x)); q = (e or s)[0]
            what.append(('meaning', '%s the word "%s"' % ('accepts' if e else 'does not accept', ''.join(q))))
        if r.groups != R.groups: what.append(('groups', 'its features are not shown every group and repeated item once it is complete (%d of %d shown)' % (len(r.groups), len(R.groups)) if len(r.groups) != len(R.groups) else 'its features are shown something else than the completed group'))
    live = [b for b, v in r.heap.items() if v == 'live']
    for b in r.bad[:1]: what.append(('released', b))
    if live: what.append(('released', 'leaves %d intermediate value%s unreleased' % (len(live), 's' if len(live) > 1 else '')))
    return toks, what
_c = []; _k = []
def run(ctx):
    m, f = setup(); _c[:] = [m, f]; _k[:] = kinds()
    jobs = sequences(ctx.tier == 'thorough')
    with Pool(8) as p: res = p.map(one, jobs, chunksize=64)
    unk = [(t, w) for t, ws in res for k, w in ws if k == '?']
    if unk: raise Broken('%d of %d expressions could not be interpreted: %s %s' % (len(unk), len(jobs), text(unk[0][0]), unk[0][1]))
    loc = next((g.loc() for g in raw().fns.values() if not g.decl and (g.qname or '').endswith('yyparse')), f.loc())
    loc = re.sub(r'\S*/gen/re_parser\.cpp', 'pire/re_parser.y (generated parser)', loc)
    seen = {}
    for t, ws in res:
        bad = {k for k, _ in ws}
        for k, w in ws:
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 4: ctx.bad(k, '%s: %s: the expression %s' % (loc, f.qname or f.name, text(t)), w)
            else: ctx.bad(k, '%s: %s: the expression %s' % (loc, f.qname or f.name, text(t)), w) if seen[k] < 8 else None
        for k in ('meaning', 'groups', 'refused', 'released'):
            if k not in bad: ctx.ok(k)
    ctx.atleast('meaning', 3000 if not seen else 0)
    ctx.cov['expressions'] = len(jobs)
    ctx.explanation = 'abstract interpretation of the generated parser over token sequences, with automata as languages cut off at a length'
