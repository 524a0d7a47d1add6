"""P04: the lexer reads characters, escapes, ranges, hexadecimal characters and repetition counts as documented."""
import re, itertools
from multiprocessing import Pool
from common import norm, raw
import bits, lexing
from bits import St, const, ival, sval
from lexing import Shared, Lexing, Trouble
from ctx import Broken
RULES = ['-^Pire::Term::', '-^Pire::(Lexer|Feature)::Error', '-^Pire::Any::', '-^Pire::TSet<', '-^std::set<']
RX = '^_ZN4Pire5Lexer5DoLexEv$|^_ZN4Pire5Lexer22InstallDefaultFeaturesEv$|^_ZNK?4Pire12_GLOBAL__N_1[0-9]+.*(7AcceptsEj|3LexEv)$|^_ZNK?4Pire7Feature.*|^_ZZN4Pire13UnicodeReader.*|^_ZZNK?4Pire12_GLOBAL__N_1.*clE.*|^_ZN4Pire8Features13AndNotSupportEv'
CTL, MASK, ERR = 0xF000, 0xFF00, 'error'
SPECIAL = '|().*+?^$\\'
# ---- the specification.  Text is a list of code points; a result is (terminal, characters consumed) or ERR or None (left open)
def units(t, k):
    """the character at k and whether it is escaped: (code, escaped, next) or None at the end, or ERR"""
    if k >= len(t): return None
    if t[k] != 92: return t[k], False, k + 1
    return ERR if k + 1 >= len(t) else (t[k + 1], True, k + 2)
HEX = set(map(ord, '0123456789abcdefABCDEF'))
def hexa(t, k):
    """a character given by its number, after \\x"""
    if k < len(t) and t[k] == ord('{'):
        e = k + 1
        while e < len(t) and t[e] in HEX: e += 1
        if e == k + 1 or e >= len(t) or t[e] != ord('}'): return ERR
        n = int(''.join(map(chr, t[k + 1:e])), 16); return ERR if n > 0x10FFFF else (n, e + 1)
    d = t[k:k + 2]
    if len(d) < 2 or any(c not in HEX for c in d): return ERR
    return int(''.join(map(chr, d)), 16), k + 2
def spec(t, andnot):
    u = units(t, 0)
    if u is None: return ('End',), 0
    if u == ERR: return ERR
    c, esc, k = u
    if c >= 0xFF and esc: return ERR
    if CTL <= c <= CTL | 0xFF: return None
    ch = chr(c)
    if esc:
        if ch == 'x':
            r = hexa(t, k)
            return r if r == ERR else (('char', r[0]), r[1])
        if ch in SPECIAL + '[]{}' or andnot and ch in '&~': return ('char', c), k
        if c == 0: return None
        return ('char', CTL | c), k                      # not a character: a class of characters, or refused
    if ch == '{':
        s = ''.join(chr(x) if x < 128 else 'x' for x in t[k:])
        m = re.match(r'(\d+)\}|(\d+),\}|(\d+),(\d+)\}', s)
        if not m: return ERR
        a, b, c, d = m.groups(); lo, hi = (int(a), int(a)) if a else (int(b), -1) if b else (int(c), int(d))
        if hi != -1 and hi < lo: return ERR
        if max(lo, hi) > 100000000: return ('count', lo, hi), k + m.end(), 'or refused'
        return ('count', lo, hi), k + m.end()
    if ch == '[': return bracket(t, k)
    if andnot and ch == '&': return ('And',), k
    if andnot and ch == '~': return ('Not',), k
    m = {'|': ('Or',), '(': ('Open',), ')': ('Close',), '.': ('.',), '*': ('count', 0, -1), '+': ('count', 1, -1), '?': ('count', 0, 1), '^': ('^',), '$': ('$',)}
    return m.get(ch, ('char', c)), k
def bracket(t, k):
    neg = False; out = set()
    if k < len(t) and t[k] == ord('^'): neg = True; k += 1
    def item(k):
        u = units(t, k)
        if u is None or u == ERR: return ERR
        c, esc, n = u
        if esc and c == ord('x'):
            r = hexa(t, n); return r if r == ERR else (r[0], True, r[1])
        if not esc: return (c, c not in map(ord, '^[]-'), n)
        if c >= 0xFF: return ERR
        if chr(c) in '^[]-\\': return c, True, n
        if chr(c) in '*+{}()$?.&~': return c, None, n              # a plain character, but no end of a range
        return CTL | c, None, n
    while True:
        if k >= len(t): return ERR
        if t[k] == ord(']'): return ('range', frozenset((c,) for c in out), int(neg)), k + 1
        r = item(k)
        if r == ERR: return ERR
        c, plain, n = r
        if plain and n < len(t) and t[n] == ord('-'):
            if n + 1 >= len(t): return ERR
            e = item(n + 1)
            if e == ERR or not e[1]: return ERR
            out |= set(range(c, e[0] + 1)); k = e[2]
        else: out.add(c); k = n
def texts(deep):
    E = []
    def add(s, an=False): E.append(([ord(c) if isinstance(c, str) else c for c in s], an))
    for c in list(range(1, 256)) + [0x3A9, 0x410, 0x663, 0x2028, 0xFFFD, 0x10FFFF, 0x12E, 0x15B, 0x128, 0xF100, 0xEFFF]:
        for rest in ('', 'q', '\\', '}', '-'):
            add([c] + list(rest)) if c not in map(ord, '\\[{') else None
            if c < 256 and c != ord('x') and rest != '-': add(['\\', c] + list(rest))
    for s in ('', '\\', '&', '~', '\\&', '\\~', '&a', '~~', '\\&&', 'a&', '&&'): add(s); add(s, True)
    al = '019,}x-' + chr(0x663)
    for n in range(0, 5 if deep else 4):
        for s in itertools.product(al, repeat=n): add('{' + ''.join(s)); 
    for s in itertools.product('0129,}', repeat=4): add('{' + ''.join(s) + 'z')
    nums = ['0', '1', '7', '10', '99', '007', '100', '999', '65535', '65536', '2147483640', '2147483647', '2147483648', '4294967296', '4294967297', '99999999999', '18446744073709551617']
    for a in nums:
        add('{%s}' % a); add('{%s,}b' % a)
        for b in nums: add('{%s,%s}*' % (a, b))
    hx = '0129aAfF'
    for a in hx + 'gG: /@`':
        for b in '3cC' + 'gx}': add('\\x' + a + b); add('\\x' + b + a + 'q')
    for s in ('', '4', '{', '{}', '{4', '{41', '{41}', '{041}', '{10ffff}', '{10FFFF}z', '{110000}', '{fffff}', '{100000000}', '{4g}', '{g}', '{4 }', '{ 4}', '{0}', '{410}', '{a}b', '41}', '{41}}'): add('\\x' + s)
    it = ['a', 'z', 'a-d', 'b-b', '\\-', '\\]', '\\\\', '\\[', '\\^', '\\w', '\\x41', '\\x{42}', 'a-\\x64', '\\x61-c', '\\x62-\\x64', '.', '*', '|', '\\.', '\\n', '{', ' ', '$', '-', '^', '\\$', '&', 'x-', '+--', '!-\\]', '[', chr(0x410) + '-' + chr(0x413)]
    for neg in ('', '^'):
        for n in range(0, 3):
            for s in itertools.product(it, repeat=n):
                add('[' + neg + ''.join(s) + ']')
                if n == 1: add('[' + neg + ''.join(s) + ']z'); add('[' + neg + ''.join(s))
    for c in list(range(1, 256)) + [0x410, 0x663, 0x2028]:
        for e in ([c], [92, c]):
            if e == [92, ord('x')]: continue
            add(['['] + e + [']']); add(['[', '^'] + e + [']']); add(['['] + e + list('z]q'))
            if 33 <= c < 127: add(['['] + e + list('-~]')); add(['[', '!', '-'] + e + [']'])
    for s in ('[a\\', '[\\x4]', '[\\x{41]', '[a-', '[a-]', '[a-\\w]', '[a-^]', '[a--]', '[\\x', '[a-\\xg]'): add(s)
    r = {}
    for t, an in E: r[(tuple(t), an)] = 1
    return list(r)
def show(t): return '"%s"' % ''.join(chr(c) if 32 <= c < 127 else '\\u%04x' % c for c in t)
def named(r, names):
    if r is None: return None
    if r[0] == 'type': return (names.get(r[1], r[1]),)
    if r[0] == 'range': return ('range', r[2], int(bool(r[3])))
    return r
def word(r):
    if r == ERR or r is None: return 'an error' if r == ERR else 'something unknown'
    if r[0] == 'char': return 'the character %s' % show([r[1]]) if not CTL <= r[1] <= CTL | 0xFF else 'the escape \\%s' % chr(r[1] & 0xFF)
    if r[0] == 'range': return '%s%s' % ('anything but ' if r[2] else '', show([c[0] for c in sorted(r[1])][:12]))
    if r[0] == 'count': return 'a count from %s to %s' % (r[1], 'infinity' if r[2] == -1 else r[2])
    return '"%s"' % r[0]
_s = []
def setup():
    m = norm(RX, RULES); R = raw(); vt = {}
    for n, g in R.globals.items():
        if n.startswith('_ZTV') and g.get('rel'): vt[n] = dict((o, f) for o, f in g['rel'])
    c = m.classes.get('Pire::Lexer')
    off = min([x['o'] for x in c['members'] if x['n'].startswith('m_features')] or [None]) if c else None
    if off is None: raise Broken('the features of the lexer were not found')
    f = m.fns.get('_ZN4Pire5Lexer22InstallDefaultFeaturesEv'); a = m.fns.get('_ZN4Pire8Features13AndNotSupportEv')
    def used(f):
        r = []
        for b in f.blocks:
            for i in b:
                for x in re.findall(r"'(_ZTVN4Pire[^']*)'", str(i.get('a', []))):
                    if x not in r and not x.endswith('7FeatureE') and not x.endswith('UnicodeReaderE'): r.append(x)
        return r
    feats = used(f); an = used(a)
    if len(feats) < 3 or len(an) != 1: raise Broken('the default features were not found')
    names = {v: k for n, cs in R.enums.items() if 'TokenTypes' in n for k, v in cs[0]['enum']}
    fn = m.fns.get('_ZN4Pire5Lexer5DoLexEv')
    if fn is None or not names: raise Broken('the lexer was not found')
    return m, vt, off, feats, an, names, fn
def one(job):
    t, andnot = job; m, vt, off, feats, an, names, fn = _s
    want = spec(list(t), andnot)
    if want is None: return job, None
    sh = Shared(m, vt, (an if andnot else []) + feats, t, off)
    r = Lexing(sh, fn, [('P', 'OUT', 0), ('P', 'LEX', 0)])
    try: r.run(St(mem={}))
    except Trouble as e: return job, str(e)
    except bits.Unsupported as e: return job, '?' + str(e)
    except Broken as e: return job, '?' + str(e)
    if r.need: return job, '?undecided'
    if sh.error: return job, '' if want == ERR or len(want) > 2 else 'is refused instead of being read as %s' % word(want[0])
    if len(r.outs) != 1: return job, '?%d ways out' % len(r.outs)
    g = named(r.outs[0][0].mem.get(('TOUT', 0), (0, None))[1], names)
    if want == ERR: return job, 'is read as %s instead of being refused' % word(g)
    if g is None: return job, '?unknown terminal'
    if g != want[0]: return job, 'is read as %s instead of %s' % (word(g), word(want[0]))
    rest = sh.input; w = list(t)[want[1]:]
    if len(rest) and len(w) and rest[0] != w[0] and CTL <= rest[0] <= CTL | 0xFF and len(w) > 1 and w[0] == 92 and rest[0] & 0xFF == w[1]: w = [rest[0]] + w[2:]      # an escape put back
    if rest != w: return job, 'leaves %s unread instead of %s' % (show(rest), show(w))
    return job, ''
def group(t):
    if t[:1] == (123,): return 'count'
    if t[:1] == (91,): return 'range'
    if t[:2] == (92, 120): return 'hexadecimal'
    return 'character'
def run(ctx):
    _s[:] = setup(); fn = _s[-1]; jobs = texts(ctx.tier == 'thorough')
    with Pool(8) as p: res = p.map(one, jobs, chunksize=64)
    unk = [(j, w) for j, w in res if w and w[0] == '?']
    if unk: raise Broken('%d of %d texts could not be interpreted: %s %s' % (len(unk), len(jobs), show(unk[0][0][0]), unk[0][1][1:]))
    n = {}
    where = {}
    for f in raw().fns.values():
        if not f.decl and re.search(r'(RepetitionCountReader|CharacterRangeReader)::Lex$|UnicodeReader::ReadUnicodeCharacter$', f.qname or ''): where['count' if 'Count' in f.qname else 'range' if 'Range' in f.qname else 'hexadecimal'] = f.loc()
    for (t, an), w in res:
        if w is None: continue
        g = group(t)
        if not w: ctx.ok(g, None); continue
        n[g] = n.get(g, 0) + 1
        if n[g] <= 6: ctx.bad(g, '%s: the text %s%s' % (where.get(g, fn.loc()), show(t), ' with and-not support' if an else ''), w)
    if not n:
        for g, k in (('character', 1500), ('count', 500), ('range', 1500), ('hexadecimal', 50)): ctx.atleast(g, k)
    ctx.cov['texts'] = len(jobs)
    ctx.explanation = 'abstract interpretation of the lexer and its default features from the IR, with the characters given and terminals and sets as tracked objects'
