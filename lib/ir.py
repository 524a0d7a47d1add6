"""In-memory view of the LLVM IR dumped by tools/irtool.cpp."""
import json, re

class Fn:
    __slots__ = ('d', 'name', 'dname', 'blocks', 'params', 'qname', 'file', 'line', 'cls', 'decl', '_idef', '_pred', '_norm_succ', '_use')
    def __init__(self, d):
        self.d = d
        self.name = d['name']; self.dname = d['dname']; self.decl = d['decl']
        self.blocks = d.get('blocks') or []
        self.params = d['params']
        sc = d.get('scope', '')
        self.qname = (sc + '::' if sc else '') + d['sname'] if 'sname' in d else self.dname
        self.file = d.get('file', ''); self.line = d.get('line', 0)
        self.cls = d.get('class')
        self._idef = None; self._pred = None; self._use = None
    @property
    def idef(self):
        if self._idef is None:
            self._idef = {i['i']: i for b in self.blocks for i in b}
        return self._idef
    def instrs(self):
        for bi, b in enumerate(self.blocks):
            for i in b:
                yield bi, i
    def succ(self, bi, unwind=True):
        t = self.blocks[bi][-1]; o = t['o']
        if o == 'br': return list(t['d'])
        if o == 'switch':
            r = [t['df']]
            for _, b in t['cs']:
                if b not in r: r.append(b)
            return r
        if o == 'invoke': return [t['n'], t['u']] if unwind else [t['n']]
        return []
    def loc(self, ins=None):
        """file:line of an instruction, or of the function."""
        if ins is not None and 'l' in ins:
            return '%s:%d' % (ins.get('lf') or self.file, ins['l'])
        return '%s:%d' % (self.file, self.line)

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {f['name']: Fn(f) for f in d['functions']}
        self.globals = {g['name']: g for g in d['globals']}
        self.classes = {}
        self.enums = {}
        for c in d['classes']:
            if 'enum' in c: self.enums.setdefault(c['name'], []).append(c)
            else: self.classes.setdefault(c['name'], c)
    def find(self, rx, defined=True):
        r = re.compile(rx)
        return [f for f in self.fns.values() if r.search(f.qname) and not (defined and f.decl)]

def callee(i):
    return i.get('f')
