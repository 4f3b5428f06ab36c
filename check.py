#!/opt/venv/bin/python
"""check.py <ID>: decide one property.  Uses VERIF_SEED and VERIF_TIER."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from harness import core  # noqa: E402

if __name__ == '__main__':
    core.main(HERE, sys.argv[1], sys.argv[2:])
