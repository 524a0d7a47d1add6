"""R04: one step of a deterministic scanner is a bounded amount of work: no open loop, recursion, allocation, exception or unknown call."""
import re
from common import raw, SCANNERS, short
from flow import natural_loops
KINDS = [s for s in SCANNERS if not s.startswith('Slow')]
OPS = {'next': 'Next', 'nextact': 'Next', 'act': 'TakeAction', 'step': 'Step', 'final': 'Final', 'dead': 'Dead', 'stidx': 'StateIndex', 'result': 'Result', 'captured': 'Captured', 'begin': 'Begin', 'end': 'End'}
LISTS = re.compile('HalfFinal|NoGlueLimit')        # kinds whose TakeAction walks the list of the current state or action
BOUNDED = {'memcpy', 'memmove', 'memset', 'llvm.memcpy', '_ZdlPv'}
ALLOC = {'_Znwm', '_Znam', 'malloc', 'calloc', 'realloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'}
def calls(f):
    for b, i in f.instrs():
        if i['o'] in ('call', 'invoke') and not i.get('intr'): yield i
def counted(f, head, body):
    """(trip count bounded by constants, some variable moves by a constant step on every turn)"""
    step = {}
    for i in f.blocks[head]:
        if i['o'] != 'phi': continue
        ins = i['in']; back = [v for v, b in ins if b in body]; start = [v for v, b in ins if b not in body]
        if not back or any(v[0] != 'i' for v in back): continue
        ks = [delta(f, v[1], i['i']) for v in back]
        if all(k for k in ks): step[i['i']] = (start, back)
    const = False
    for b in body:
        t = f.blocks[b][-1]
        if t['o'] == 'br' and t.get('a') and any(d not in body for d in t['d']):
            c = f.idef.get(t['a'][0][1]) if t['a'][0][0] == 'i' else None
            if c is None or c['o'] != 'icmp': continue
            x = [a for a in c['a']]
            ivs = [a for a in x if a[0] == 'i' and any(a[1] == p or ['i', a[1]] in [list(q) for q in bk] for p, (s, bk) in step.items())]
            if ivs and any(a[0] in ('c', 'C', 'n') for a in x):
                for p, (s, bk) in step.items():
                    if any(a[1] == p or ['i', a[1]] in [list(q) for q in bk] for a in ivs) and all(v[0] in ('c', 'C') for v in s) and every(f, head, body, b): const = True
    return const, bool(step)
def every(f, head, body, b):
    """every turn of the loop passes block b"""
    seen = set(); todo = [head]
    if b == head: return True
    while todo:
        x = todo.pop()
        for s in f.succ(x):
            if s == head: return False
            if s in body and s != b and s not in seen: seen.add(s); todo.append(s)
    return True
def delta(f, v, phi, depth=0):
    """v is the phi moved by a nonzero constant"""
    d = f.idef.get(v)
    if d is None or depth > 6: return 0
    if d['o'] in ('add', 'sub') and any(a == ['i', phi] or tuple(a) == ('i', phi) for a in d['a']):
        k = [a for a in d['a'] if a[0] in ('c', 'C')]
        return bool(k) and int(k[0][1]) != 0
    if d['o'] == 'getelementptr' and tuple(d['a'][0]) == ('i', phi) and d.get('k') and not d.get('v'): return True
    if d['o'] == 'getelementptr' and d['a'][0][0] == 'i' and not d.get('v'): return delta(f, d['a'][0][1], phi, depth + 1)
    return 0
def nested(loops): return [h for h in loops if any(h != g and h in loops[g] for g in loops)]
def run(ctx):
    m = raw(); done = set()
    for kind in KINDS:
        for op, name in OPS.items():
            e = 'e_%s_%s' % (kind, op)
            if e not in m.fns: continue
            path = {}; todo = [(e, None)]; edges = {}
            while todo:
                n, p = todo.pop()
                if n in path: continue
                path[n] = p; f = m.fns.get(n)
                if f is None or f.decl: continue
                for i in calls(f):
                    t = i.get('f') or 'INDIRECT'; edges.setdefault(n, []).append((t, i)); todo.append((t, n))
            bad = []
            def via(n):
                c = []
                while n: c.append(short(m.fns[n].qname) if n in m.fns else n); n = path[n]
                return ' <- '.join(c[:5])
            for n, p in path.items():
                f = m.fns.get(n); at = next((m.fns[p].loc(i) for t, i in edges.get(p, []) if t == n), '') if p else ''
                if n == 'INDIRECT': bad.append((at, 'calls through a pointer in ' + via(p))); continue
                if f is None or f.decl:
                    if n in ALLOC: bad.append((at, 'allocates memory in ' + via(p)))
                    elif n in ('__cxa_throw',) or n.startswith('_ZSt') and '__throw' in n: bad.append((at, 'may throw in ' + via(p)))
                    elif n not in BOUNDED and not n.startswith('llvm.') and n not in ('__assert_fail', 'abort', '_ZSt9terminatev', '__gxx_personality_v0', '__clang_call_terminate', '__cxa_begin_catch'):
                        bad.append((at, 'calls %s, whose cost is unknown, in %s' % (n, via(p))))
                    continue
                loops = natural_loops(f)
                for h, body in loops.items():
                    const, steps = counted(f, h, body)
                    if const: continue
                    if LISTS.search(kind) and op in ('act', 'step') and steps and h not in nested(loops) and not calls_loop(m, f, body): continue
                    bad.append((f.loc(next((i for i in f.blocks[h] if 'l' in i), None)), 'has a loop without a constant bound in ' + via(n)))
            for n in cyc(edges): bad.append((m.fns[n].loc(), 'is recursive: ' + via(n)))
            ctx.cov['functions'] = ctx.cov.get('functions', 0) + len(path)
            if bad:
                for at, w in bad[:3]: ctx.bad('bounded-step', at, '%s of %s %s' % (name, kind, w))
            else: ctx.ok('bounded-step', '%s of %s: %d functions, no open loop, recursion, allocation or exception' % (name, kind, len(path)))
    ctx.atleast('bounded-step', 75)
    ctx.explanation = 'call graph and natural loops of every per-character operation over LLVM IR'
    ctx.assumptions += ['lists of a state or action are finite, as written by the library']
def calls_loop(m, f, body):
    """a callee of the loop body loops itself"""
    todo = [i['f'] for b in body for i in f.blocks[b] if i['o'] in ('call', 'invoke') and i.get('f')]; seen = set()
    while todo:
        n = todo.pop()
        if n in seen or n not in m.fns or m.fns[n].decl: continue
        seen.add(n)
        if any(not counted(m.fns[n], h, b)[0] for h, b in natural_loops(m.fns[n]).items()): return True
        todo += [i['f'] for i in calls(m.fns[n]) if i.get('f')]
    return False
def cyc(edges):
    color = {}; out = []
    def go(n):
        color[n] = 1
        for t, i in edges.get(n, []):
            if color.get(t) == 1: out.append(t)
            elif t not in color: go(t)
        color[n] = 2
    for n in list(edges):
        if n not in color: go(n)
    return out
