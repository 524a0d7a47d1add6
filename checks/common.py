import re, build, ir
_m = {}
def raw():
    p = build.raw()
    if p not in _m: _m[p] = ir.Module(p)
    return _m[p]
def norm(rx, rules=()):
    p = build.norm(rx, rules)
    if p not in _m: _m[p] = ir.Module(p)
    return _m[p]
CONST_OPS = 'init|next|act|step|run|final|dead|lpref|spref|lsuf|ssuf|matches|accepted|stidx|size|next2|canstop|getcapture'
SCANNERS = ['Scanner', 'ScannerNoMask', 'NonrelocScanner', 'NonrelocScannerNoMask', 'HalfFinal', 'HalfFinalNoMask', 'NonrelocHalfFinal',
            'NonrelocHalfFinalNoMask', 'Simple', 'Slow', 'Capturing', 'SlowCapturing', 'Counting', 'AdvCounting', 'NoGlueLimit']
def short(qname):
    """drop template arguments for readable messages"""
    out = ''; d = 0
    for c in qname:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out += c
    return out
