"""Builds what the checks share (they build whatever is missing themselves)."""
import sys
from . import repo
try:
    repo.extractor()
    repo.tool()
except repo.BuildError as e:
    print(e, file=sys.stderr)
    sys.exit(1)
