#!/usr/bin/env python3
"""Entry point of every check.

  check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--shards N]
  check.py <PROPERTY> --replay FILE
  check.py --setup

Exit 0: the property held on everything explored.  Exit 1 plus a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: the check
itself could not do its work.
"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from harness import driver  # noqa: E402

if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1:]))
