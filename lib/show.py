"""debugging aid: prints functions of a dumped module"""
import sys, ir
def op(o):
    k = o[0]
    if k == 'i': return '%%%d' % o[1]
    if k == 'p': return 'p%d' % o[1]
    if k in ('c', 'C'): return '%s' % o[1]
    if k in ('f', 'g'): return '@' + o[1]
    if k == 'n': return 'null'
    if k == 'ge': return '(%s+%d)' % (op(o[1]), o[2])
    return str(o)
def pr(f):
    print('==', f.name, f.qname, f.loc(), f.params)
    for bi, b in enumerate(f.blocks):
        print(' b%d:' % bi)
        for i in b:
            o = i['o']; a = ', '.join(op(x) for x in i.get('a', []))
            if o == 'getelementptr': a += ' + %s %s' % (i.get('k'), ' '.join('+%d*%s' % (k, op(x)) for x, k in i.get('v', [])))
            if o == 'phi': a = ' '.join('[%s b%d]' % (op(x), y) for x, y in i['in'])
            if o in ('call', 'invoke'): a = (i.get('f') or str(i.get('fp'))) + '(' + a + ')'
            ex = {k: i[k] for k in ('n', 'u', 'd', 'cs', 'df', 'p', 's', 'ix', 'cl') if k in i}
            print('   %%%d %s:%s %s %s  ; %s' % (i['i'], o, i.get('w', ''), a, ex or '', i.get('l', '')))
if __name__ == '__main__':
    m = ir.Module(sys.argv[1])
    for f in m.fns.values():
        if not f.decl and __import__('re').search(sys.argv[2], f.name): pr(f)
