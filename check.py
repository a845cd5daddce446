#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo."""
import pathlib
import sys
import traceback

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True

from vf import runner  # noqa: E402

if __name__ == '__main__':
    try:
        sys.exit(runner.main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:  # the check itself failed: neither 0 nor 1
        traceback.print_exc()
        sys.exit(2)
