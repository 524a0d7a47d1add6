#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property from /repo's current source."""
import sys, os, importlib.util, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib'); sys.path.insert(0, V + '/checks')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import ctx as C, build

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    c = C.Ctx(prop, tier)
    ev = '%s/evidence/%s.json' % (V, prop)
    if os.path.exists(ev): os.unlink(ev)
    try:
        mod = importlib.import_module(prop)
        mod.run(c)
        if not c.obl: raise C.Broken('no obligation was generated')
    except (C.Broken, build.BuildError) as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e)); 
        # violations already established stand on their own
        if c.viol: return c.finish()
        return 2
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s: internal error' % prop)
        if c.viol: return c.finish()
        return 2
    return c.finish()
if __name__ == '__main__': sys.exit(main())
