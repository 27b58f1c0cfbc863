#!/usr/bin/env python3
"""check.py <property> [--replay file]: decide one property by seeded simulation (see DESIGN.md)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst.runner import main  # noqa: E402

if __name__ == '__main__':
    main(sys.argv[1:])
