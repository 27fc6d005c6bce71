#!/usr/bin/env python3
"""check.py <property>: runs the check of one property against /repo."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    from build import BuildError
    try:
        mod = importlib.import_module(pid.lower())
        return mod.main()
    except BuildError as e:
        print('ERROR property=%s the tree does not build with the monitors:\n%s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s the check itself failed' % pid)
        return 4


if __name__ == '__main__':
    sys.exit(main())
