import sys

from pbt import sutpath  # noqa: F401  (sets sys.path before anything else)
from pbt import harness

sys.exit(harness.main(sys.argv[1].upper(), sys.argv[2:]))
