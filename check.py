#!/usr/bin/env python3
"""check.py <PROPERTY-ID>...   decide properties of /repo's working tree by static analysis"""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import report

def main(ids):
    worst = 0
    for pid in ids:
        mod = importlib.import_module('chk_' + pid.lower())
        try:
            st = mod.run()
        except Exception as e:
            p = os.path.join(report.EVID, pid + '.json')
            if os.path.exists(p):
                os.unlink(p)
            traceback.print_exc()
            print('ERROR property=%s %s: %s' % (pid, type(e).__name__, e))
            st = 2
        if st == 1 or (st and worst != 1):
            worst = st
    return worst

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
