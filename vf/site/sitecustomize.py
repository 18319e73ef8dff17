"""Makes a worker and its child processes import the module built from the
working tree instead of the installed one."""

import os
import sys

_core = os.environ.get('VF_CORE_DIR')
if _core:
    sys.meta_path[:] = [
        f for f in sys.meta_path if 'ScikitBuild' not in type(f).__name__
    ]
    sys.path[:] = [_core, os.environ.get('VERIF_REPO', '/repo')
                  ] + [p for p in sys.path if p != '']
