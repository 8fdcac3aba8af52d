#!/usr/bin/env python3
"""check.py <property id>: runs one check of /verif against /repo's current tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.dont_write_bytecode = True
import ppv

def main():
    ids = sys.argv[1:]
    rc = 0
    for i in ids:
        try:
            r = importlib.import_module(i).main()
        except ppv.HarnessError as e:
            print('ERROR %s: %s' % (i, e)); r = 2
        except Exception:
            traceback.print_exc(); r = 2
        rc = max(rc, r) if rc != 1 else 1
    sys.exit(rc)

main()
