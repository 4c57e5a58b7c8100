#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there."""
import shutil, sys
missing = [t for t in ("gcc", "make") if not shutil.which(t)]
if missing:
    sys.exit("missing: %s" % missing)
print("ok")
