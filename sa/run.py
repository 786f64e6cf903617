import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
from ctx import Ctx


def main():
    pid = sys.argv[1]
    ctx = Ctx(pid)
    rc = 2
    try:
        m = importlib.import_module('checks.' + pid.lower())
        try:
            m.run(ctx)
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            ctx.skip('analysis', pid, '%s: %s' % (type(e).__name__, e))
        rc = ctx.finish()
    finally:
        ctx.cleanup()
    sys.exit(rc)


main()
