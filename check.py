#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property (VERIF_TIER=quick|thorough, VERIF_SEED)."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'props')]
import ctx as C, vm, tlc

def main():
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    c = C.Ctx(prop, getattr(mod, 'LEVEL', 'model_checking'))
    try:
        mod.run(c)
    except (vm.BuildError, tlc.ModelError) as e:
        print('CHECK ERROR (neither held nor violated): %s' % e)
        c.cleanup()
        return 2
    except BaseException:
        c.cleanup()
        raise
    return c.finish()

sys.exit(main())
