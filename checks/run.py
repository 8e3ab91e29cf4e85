"""
Runs the check of one property:  python -B checks/run.py <property> [--replay FILE] [--cases N]
"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))

import runner  # noqa: E402  pylint: disable=wrong-import-position

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(runner.main())
