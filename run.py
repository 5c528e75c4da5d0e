#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py <property> [quick|thorough]

Exit 0: the property held on everything explored.  Exit 1 with a line
`VIOLATION property=<id> replay=<path>`: it is broken.  Other exits: the
machinery itself failed."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import harness  # noqa: E402

if __name__ == '__main__':
    try:
        code = harness.main(sys.argv[1:])
    except harness.Machinery as e:
        print('MACHINERY:', e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
