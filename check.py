#!/usr/bin/python3 -W ignore
"""check.py ID: decide one property on /repo's current source."""
import os
import sys
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gvn import runner, props  # noqa: E402

if __name__ == '__main__':
    pid = sys.argv[1]
    sys.exit(runner.main(pid, props.PROPS[pid]))
