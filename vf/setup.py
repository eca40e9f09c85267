"""Builds all drivers in both float widths, so that a checkout is known to be complete."""
import sys
from common import build, ToolError

for b in ("scene", "gvec", "gbox", "gmat", "gxform", "gray", "gapply", "ghelp", "gframe"):
    for f64 in (False, True):
        try:
            build(b, f64)
        except ToolError as e:
            print(e, file=sys.stderr)
            sys.exit(1)
print("drivers built")
