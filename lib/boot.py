"""Process set-up: import hiku from /repo's working tree and Hypothesis from
the pre-installed tools. Imported first by everything else."""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('HIKU_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

# /repo first, so that what is checked is the working tree
sys.path[:] = [REPO, VERIF] + [p for p in sys.path
                               if p not in (REPO, VERIF, '')]
if TOOLS not in sys.path:
    sys.path.append(TOOLS)      # last: hiku's own dependencies win

import warnings  # noqa: E402
warnings.simplefilter('ignore')

import hiku  # noqa: E402
HIKU_DIR = os.path.dirname(os.path.realpath(hiku.__file__))
if not HIKU_DIR.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit('hiku imported from %s, not %s' % (HIKU_DIR, REPO))
