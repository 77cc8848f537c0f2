#!/usr/bin/env python3
"""check.py Cxx: decide one property.  Exit 0 held, 1 violated, 2 no answer."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
sys.dont_write_bytecode = True
import vlib
def main():
    pid = sys.argv[1]
    ctx = vlib.Ctx(pid)
    try:
        mod = importlib.import_module('props.' + pid.lower())
        r = mod.main(ctx)
        return vlib.finish(ctx) if r is None else r
    except vlib.CheckError as e:
        print('CHECK-ERROR', e); 
        return 1 if ctx.violations and vlib.finish(ctx) else 2
    except Exception:
        traceback.print_exc()
        return 1 if ctx.violations and vlib.finish(ctx) else 2
    finally:
        ctx.done()
sys.exit(main())
