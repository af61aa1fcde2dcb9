#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from irvc import framework
if __name__ == '__main__':
    try:
        if '--thorough' in sys.argv: os.environ['VERIF_TIER'] = 'thorough'
        sys.exit(framework.main(sys.argv[1]))
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc()
        sys.exit(2)
