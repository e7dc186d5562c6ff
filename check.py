#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   exit 0 = holds, 1 = VIOLATION, 2 = could not be analysed"""
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'checks')]
sys.setrecursionlimit(20000)
import importlib, threading, traceback
def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: k = a.index('--tier'); tier = a[k + 1]; del a[k:k + 2]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    import registry
    pid = a[0]
    modname, fn = registry.CHECKS[pid]
    import report
    m = importlib.import_module(modname)
    try: return getattr(m, fn)(pid, tier)
    except Exception:
        traceback.print_exc(limit=8); print('%s: the analysis could not run' % pid); return 2
if __name__ == '__main__':
    rc = [2]
    threading.stack_size(512 << 20)
    def go(): rc[0] = main()
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush(); os._exit(rc[0])
