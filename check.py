#!/opt/venv/bin/python
"""Runs the check of one property: check.py C01 [--replay FILE].

Environment: VERIF_SEED (every random choice), VERIF_TIER (quick | thorough).
Exit 0: held on everything observed. Exit 1: a VIOLATION line was printed.
Exit 2: inconclusive (nothing observed, resources, the check itself failed).
"""

import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))

from vf.runner import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
