#!/usr/bin/env python3
"""Runs the checks.

    check.py <property> quick|thorough     explore; VERIF_SEED selects the seed
    check.py replay <file>                 run one recorded schedule again
    check.py selftest [runs]               determinism of the simulator
    check.py setup                         sanity of the installation

Exit status: 0 the property held on everything explored, 1 it is violated
(with a line "VIOLATION property=<id> replay=<path>"), 2 the check itself
failed.
"""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get('PYTHONHASHSEED') != '0' and __name__ == '__main__' and \
        os.environ.get('SIM_KEEP_HASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from sim import runner          # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:], HERE))
