"""Makes the code under test importable from /repo's working tree, never from stale bytecode."""
import atexit
import logging
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("VP_REPO", "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vp-no-such-pycache-%d" % os.getpid())
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import gcodeutils  # noqa: E402

assert os.path.abspath(gcodeutils.__file__).startswith(os.path.abspath(REPO) + os.sep), gcodeutils.__file__
